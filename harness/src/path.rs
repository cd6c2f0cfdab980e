//! resolving subpaths
use crate::img::Img;
use crate::keys::root;
use crate::names::*;
use crate::sym::*;
use nt_hive::*;

/// three levels of keys with one-letter names:
/// A -> { A -> { B, C }, B (unreadable list), D (not a key) }, B -> { A }, C
/// the unreadable list's signature and the unreadable key's size field are arbitrary
fn tree() -> Img {
    let mut m = Img::new(4096);
    let key = |m: &mut Img, c: u8| { let k = m.key(1, true); m.w8(Img::at(k) + 76, c); k };
    let deep = [key(&mut m, b'B'), key(&mut m, b'c')];
    let l = m.list(LH, &deep);
    let aa = key(&mut m, b'a');
    m.subkeys(aa, 2, l);
    let ab = key(&mut m, b'B');
    let bad = m.cell(12);
    let sig = any_u16();
    assume((sig != LF) & (sig != LH) & (sig != LI) & (sig != RI));
    m.w16(Img::at(bad), sig);
    m.subkeys(ab, 1, bad);
    let ad = key(&mut m, b'D');
    let size = any_u32();
    m.w32(Img::at(ad) - 4, size);
    let l1 = m.list(LI, &[aa, ab]);
    let l2 = m.list(LF, &[ad]);
    let l = m.list(RI, &[l1, l2]);
    let a = key(&mut m, b'A');
    m.subkeys(a, 3, l);
    let b = key(&mut m, b'b');
    let ba = key(&mut m, b'A');
    let l = m.list(LI, &[ba]);
    m.subkeys(b, 1, l);
    let c = key(&mut m, b'C');
    let l = m.list(LF, &[a, b, c]);
    let r = key(&mut m, b'A');
    m.subkeys(r, 3, l);
    m.root(r);
    m
}
fn place(b: &[u8], k: &Key) -> u64 { match k.name() { Ok(n) => pos(b, name_bytes(&n).0), Err(_) => 0 } }

/// arbitrary hive: every list on the way has at most one entry
fn narrow(s: &Regf, c: &Cell, depth: u32) {
    let off = s.u32(c.start + 28);
    let l = s.list(off);
    assume((off == NONE) | !l.ok | ((l.count <= 1) & !l.ri));
    if depth == 0 || off == NONE || !l.ok || l.count == 0 { return }
    let e = s.entry(&l.fixed(), 0);
    if !s.key_ok(e) { return }
    narrow(s, &s.cell(e), depth - 1)
}

/// the components looked up one after the other
fn fold<'a>(k: &Key<'a>, path: &[u8], at: &[usize]) -> (Option<Result<Key<'a>>>, u32) {
    let mut k = k.clone();
    let mut n = 0;
    for w in at.windows(2) {
        let (i, j) = (w[0], w[1] - 1);
        if i == j { continue }
        n += 1;
        match k.subkey(unsafe { core::str::from_utf8_unchecked(&path[i..j]) }) {
            Some(Ok(x)) => k = x,
            r => return (r, n),
        }
    }
    (Some(Ok(k)), n)
}

fn judge(b: &[u8], k: &Key, p: &Text, at: &[usize]) {
    let r = k.subpath(p.str());
    let (w, n) = fold(k, &p.b[..p.len], at);
    match (&r, &w) {
        (None, None) => if n > 1 { cover(1) },
        (Some(Ok(x)), Some(Ok(y))) => {
            if n == 0 { cover(2) } else if n == 1 { cover(3) } else { cover(4) }
            p!(c14, place(b, x) == place(b, y), 1401);
            p!(c14, x == y, 1402);
        }
        (Some(Err(x)), Some(Err(y))) => { cover(5); p!(c14, x == y, 1403) }
        _ => p!(c14, false, 1404),
    }
}

crate::harness! {
    // paths of up to `case` ASCII characters, of which any may be a backslash
    path_any {
        let m = tree();
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        // from the root key, or from one below it
        let k = if any_u8() & 1 == 0 { k } else { match k.subkeys() { Some(Ok(mut i)) => match i.next() { Some(Ok(k)) => k, _ => return }, _ => return } };
        let n = any_u8() as usize;
        assume(n as u64 <= case());
        let n = concretize(n as u64) as usize;
        let mut t = Text::new();
        let mut at = [0; 12];
        let mut c = 1;
        for _ in 0..n {
            let x = any_u8();
            assume(x < 0x80);
            if x == b'\\' { t.put(0x5c); at[c] = t.len; c += 1 } else { t.put(x as u32) }
        }
        at[c] = t.len + 1;
        judge(b, &k, &t, &at[..c + 1]);
    }
    // arbitrary hives
    path_wild {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        narrow(&s, &c, 1);
        let (x, y) = (any_u8(), any_u8());
        assume((x < 0x80) & (y < 0x80) & (x != 0x5c) & (y != 0x5c));
        let mut t = Text::new();
        t.put(x as u32);
        t.put(0x5c);
        t.put(y as u32);
        judge(b, &k, &t, &[0, 2, 4]);
    }
    // paths of `case` characters of any plane, of which any may be a backslash
    path_wide {
        let m = tree();
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let mut t = Text::new();
        let mut at = [0; 12];
        let mut c = 1;
        for _ in 0..case() {
            if any_u8() & 1 == 0 { t.put(0x5c); at[c] = t.len; c += 1; continue }
            let x = any_u16();
            assume((x != 0x5c) & ((x < 0xd800) | (x >= 0xe000)));
            if x < 0xd800 { t.put(x as u32) } else { t.put(0x10000 | x as u32) }
        }
        at[c] = t.len + 1;
        judge(b, &k, &t, &at[..c + 1]);
    }
}
