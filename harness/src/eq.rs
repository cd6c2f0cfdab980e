//! equality of handles
use crate::img::Img;
use crate::keys::root;
use crate::sym::*;
use nt_hive::*;

/// the handles are equal exactly if `same`, whichever operator and order is used
fn keys(a: &Key, b: &Key, same: bool, id: u32) {
    p!(c19, (a == b) == same, id);
    p!(c19, (b == a) == same, id + 1);
    p!(c19, (a != b) != same, id + 2);
    p!(c19, (a == a) & (b == b), id + 3);
    p!(c19, (a.clone() == *b) == same, id + 4);
    p!(c19, (a.clone() == *a) & (b.clone() == *b), id + 5);
}
fn vals(a: &Val, b: &Val, same: bool, id: u32) {
    p!(c19, (a == b) == same, id);
    p!(c19, (b == a) == same, id + 1);
    p!(c19, (a != b) != same, id + 2);
    p!(c19, (a == a) & (b == b), id + 3);
    p!(c19, (a.clone() == *b) == same, id + 4);
    p!(c19, (a.clone() == *a) & (b.clone() == *b), id + 5);
}
fn place(b: &[u8], k: &Key) -> u64 { match k.name() { Ok(n) => pos(b, name_bytes(&n).0), Err(_) => 0 } }

crate::harness! {
    // two positions of a leaf of an arbitrary hive, through one or two hive objects
    eq_keys {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let (Some(h), Some(g)) = (open(b), open(b)) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let Some((q, _)) = root(&s, &g) else { p!(c19, false, 1900); return };
        let Some((r, _)) = root(&s, &h) else { p!(c19, false, 1901); return };
        cover(1);
        keys(&k, &r, true, 1902);
        keys(&k, &q, false, 1910);
        let off = s.u32(c.start + 28);
        let l = s.list(off);
        assume((off != NONE) & l.ok & l.leaf);
        short(l.count);
        let l = l.fixed();
        let (n, m) = (any_u64(), any_u64());
        assume((n < l.count) & (m < l.count));
        let (x, y) = (s.entry(&l, n), s.entry(&l, m));
        assume(s.key_ok(x));
        assume(s.key_ok(y));
        let two = case() == 1;
        let (Some(Ok(mut i)), Some(Ok(mut j))) = (k.subkeys(), if two { q.subkeys() } else { k.subkeys() }) else { p!(c19, false, 1920); return };
        let (Some(Ok(a)), Some(Ok(b))) = (i.nth(n as usize), j.nth(m as usize)) else { p!(c19, false, 1921); return };
        let same = (x == y) & !two;
        if x == y { cover(2) } else { cover(3) }
        keys(&a, &b, same, 1922);
        // against the root key
        let up = x == s.root_offset();
        if up { cover(4) }
        keys(&a, &k, up, 1930);
        keys(&b, &k, (y == s.root_offset()) & !two, 1936);
    }
    eq_values {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let (Some(h), Some(g)) = (open(b), open(b)) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let Some((q, _)) = root(&s, &g) else { p!(c19, false, 1940); return };
        let l = s.cell(s.u32(c.start + 40));
        let count = s.u32(c.start + 36) as u64;
        short(count);
        let (n, m) = (any_u64(), any_u64());
        assume((n < count) & (m < count));
        let two = case() == 1;
        let (Some(Ok(mut i)), Some(Ok(mut j))) = (k.values(), if two { q.values() } else { k.values() }) else { return };
        let (x, y) = (s.item4(l.start, n), s.item4(l.start, m));
        assume(s.value_ok(x));
        assume(s.value_ok(y));
        let (Some(Ok(a)), Some(Ok(b))) = (i.nth(n as usize), j.nth(m as usize)) else { p!(c19, false, 1941); return };
        if x == y { cover(1) } else { cover(2) }
        vals(&a, &b, (x == y) & !two, 1942);
    }
    // lookup, subpath and enumeration: three levels of keys whose contents are the same bytes, arbitrary ones;
    // one of them is listed twice; case: behind an index root or not
    eq_ways {
        let mut m = Img::new(4096);
        let mut filler = [0u8; 16];
        for x in &mut filler { *x = any_u8() }
        let key = |m: &mut Img, c: u8| {
            let k = m.key(1, true);
            let p = Img::at(k);
            m.w8(p + 76, c);
            for i in 0..8 { m.w8(p + 4 + i, filler[i]); m.w8(p + 52 + i, filler[8 + i]) }
            k
        };
        let r = key(&mut m, b'k');
        m.root(r);
        let (a, b, c) = (key(&mut m, b'a'), key(&mut m, b'b'), key(&mut m, b'c'));
        // the same list serves two of them: the keys below are the same cells
        let (d, e) = (key(&mut m, b'a'), key(&mut m, b'b'));
        let l = m.list(LI, &[d, e]);
        m.subkeys(a, 2, l);
        m.subkeys(b, 2, l);
        let f = key(&mut m, b'a');
        let l = m.list(LF, &[f]);
        m.subkeys(c, 1, l);
        let all = if case() == 0 { m.list(LH, &[a, b, c]) } else {
            let l1 = m.list(LH, &[a, b]);
            let l2 = m.list(LI, &[c]);
            m.list(RI, &[l1, l2, l2])
        };
        m.subkeys(r, 3, all);
        let v = [m.value(4 | 1 << 31, 7, 4), m.value(4 | 1 << 31, 7, 4)];
        let l = m.offsets(&[v[0], v[1], v[0]]);
        m.values(r, 3, l);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let t = [any_u8(), b'\\', any_u8()];
        assume((t[0] < 0x80) & (t[2] < 0x80) & (t[0] != 0x5c) & (t[2] != 0x5c));
        let path = unsafe { core::str::from_utf8_unchecked(&t) };
        let deep = k.subpath(path);
        let top = k.subkey(&path[..1]);
        let mut hits = 0;
        let Some(Ok(i)) = k.subkeys() else { p!(c19, false, 1950); return };
        for x in i {
            let Ok(x) = x else { p!(c19, false, 1951); return };
            if let Some(Ok(t)) = &top { keys(&x, t, place(b, &x) == place(b, t), 1952) }
            keys(&x, &k, false, 1960);
            let Some(Ok(j)) = x.subkeys() else { p!(c19, false, 1966); return };
            for y in j {
                let Ok(y) = y else { p!(c19, false, 1967); return };
                keys(&x, &y, false, 1968);
                if let Some(Ok(d)) = &deep {
                    let same = place(b, &y) == place(b, d);
                    if same { hits += 1 }
                    keys(d, &y, same, 1974);
                }
            }
        }
        if hits == 0 { cover(1) } else { cover(2) }
        if matches!(deep, Some(Ok(_))) { p!(c19, hits > 0, 1980) }
        // the path from the root key to itself
        if let Some(Ok(x)) = k.subpath("\\") { keys(&x, &k, true, 1981) } else { p!(c19, false, 1987) }
        let (Some(Ok(x)), Some(Ok(i))) = (k.value(""), k.values()) else { p!(c19, false, 1988); return };
        for (n, y) in i.enumerate() {
            let Ok(y) = y else { p!(c19, false, 1989); return };
            vals(&x, &y, n != 1, 1990);
        }
    }
}
