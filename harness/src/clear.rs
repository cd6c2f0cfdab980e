//! clearing the volatile subkeys
use crate::img::Img;
use crate::keys::{Walk, Want};
use crate::sym::*;
use nt_hive::*;

/// what the subkeys lists of a hive lead to
struct Reach { keys: Vec<u32>, bad: Vec<u32>, badlist: Vec<(u32, bool)> }
impl Reach {
    fn new(s: &Regf) -> Self {
        let mut r = Reach { keys: Vec::new(), bad: Vec::new(), badlist: Vec::new() };
        let o = s.root_offset();
        if s.key_ok(o) { r.visit(s, o) } else { r.bad.push(o) }
        r
    }
    fn visit(&mut self, s: &Regf, o: u32) {
        self.keys.push(o);
        let off = s.u32(s.cell(o).start + 28);
        if off == NONE { return }
        let l = s.list(off);
        if !l.ok { self.badlist.push((off, false)); return }
        let mut subs = Vec::new();
        if !l.ri {
            let l = l.fixed();
            for n in 0..concretize(l.count) { subs.push(s.entry(&l, n)) }
        } else {
            let mut w = Walk::new(l);
            loop {
                match w.next(s) {
                    Want::End => break,
                    Want::Key(o) | Want::Bad(o) => subs.push(o),
                    Want::BadList(o) => self.badlist.push((o, true)),
                }
            }
        }
        for o in subs { if s.key_ok(o) { self.visit(s, o) } else { self.bad.push(o) } }
    }
    fn error(&self, s: &Regf, e: &NtHiveError) -> bool {
        let mut r = false;
        for o in &self.bad { r |= key_fault(s, e, *o) }
        for (o, leaf) in &self.badlist { r |= list_fault(s, e, *o, *leaf) }
        r
    }
    fn fine(&self) -> bool { self.bad.is_empty() && self.badlist.is_empty() }
}

/// keys with arbitrary volatile counts and something arbitrary about them, which may make them unreadable
fn tree(case: u64) -> Img {
    let mut m = Img::new(4096);
    let key = |m: &mut Img| { let k = m.key(3, true); let v = any_u32(); m.w32(Img::at(k) + 24, v); k };
    let r = key(&mut m);
    m.root(r);
    // a list over the keys numbered from `from` on, of one leaf of each size
    fn leaves(m: &mut Img, sizes: &[usize]) -> u32 {
        let mut all = Vec::new();
        for (i, n) in sizes.iter().enumerate() {
            let mut keys = Vec::new();
            for _ in 0..*n { let k = m.key(3, true); let v = any_u32(); m.w32(Img::at(k) + 24, v); keys.push(k) }
            all.push(m.list([LH, LI, LF][i % 3], &keys));
        }
        if all.len() == 1 { all[0] } else { m.list(RI, &all) }
    }
    match case {
        0 => (),
        // a root cell with an arbitrary size, a leaf of two keys
        1 => {
            let (a, b) = (key(&mut m), key(&mut m));
            let l = m.list(LF, &[a, b]);
            m.subkeys(r, 2, l);
            let x = any_u32();
            m.w32(Img::at(r) - 4, x);
        }
        // a leaf with an arbitrary signature and number of entries (of which only three are there), one of whose keys has an arbitrary size
        2 => {
            let (a, b, c) = (key(&mut m), key(&mut m), key(&mut m));
            let l = m.list(LI, &[a, b, c]);
            m.subkeys(r, 3, l);
            let (x, y, z) = (any_u16(), any_u16(), any_u32());
            m.w16(Img::at(l), x);
            m.w16(Img::at(l) + 2, y);
            assume((x != RI) & ((y <= 3) | (y > 5)));
            m.w32(Img::at(b) - 4, z);
        }
        // an index root with an arbitrary number of entries over a leaf with an arbitrary number of entries and another leaf
        3 => {
            let (a, b, c, d) = (key(&mut m), key(&mut m), key(&mut m), key(&mut m));
            let l1 = m.list(LH, &[a, b]);
            let l2 = m.list(LI, &[c, d]);
            let l = m.list(RI, &[l1, l2]);
            m.subkeys(r, 4, l);
            let (x, y) = (any_u16(), any_u16());
            m.w16(Img::at(l1) + 2, x);
            m.w16(Img::at(l) + 2, y);
            assume((y <= 2) | (y > 3));
            let z = any_u16();
            m.w16(Img::at(c), z);
        }
        // four levels; the deepest keys' signatures are arbitrary
        4 => {
            let (a, b, c, d, e) = (key(&mut m), key(&mut m), key(&mut m), key(&mut m), key(&mut m));
            let l = m.list(LI, &[d, e]);
            m.subkeys(c, 2, l);
            let l = m.list(LF, &[c]);
            let i = m.list(RI, &[l]);
            m.subkeys(b, 1, i);
            let l = m.list(LH, &[a, b]);
            m.subkeys(r, 2, l);
            let (x, y) = (any_u16(), any_u16());
            m.w16(Img::at(d), x);
            m.w16(Img::at(e), y);
        }
        // long lists
        6 => { let l = leaves(&mut m, &[3, 5, 4]); m.subkeys(r, 12, l) }
        7 => { let l = leaves(&mut m, &[9]); m.subkeys(r, 9, l) }
        8 => { let l = leaves(&mut m, &[1, 2, 1, 1, 7, 2, 3, 1]); m.subkeys(r, 18, l) }
        // every field of three keys that does not lead to subkeys is arbitrary
        9 => {
            let (a, b) = (key(&mut m), key(&mut m));
            let l = m.list(LI, &[b]);
            m.subkeys(a, 0, l);
            let l = m.list(LF, &[a]);
            m.subkeys(r, 0, l);
            for k in [r, a, b] {
                for i in (2..28).chain(32..80) { let x = any_u8(); m.w8(Img::at(k) + i, x) }
            }
        }
        // nine levels
        10 => {
            let mut up = r;
            for i in 0..8 {
                let k = key(&mut m);
                let mut l = m.list([LH, LI, LF][i % 3], &[k]);
                if i & 1 == 1 { l = m.list(RI, &[l]) }
                m.subkeys(up, 1, l);
                up = k;
            }
        }
        // shared lists and keys
        11 => {
            let (a, b, c, d) = (key(&mut m), key(&mut m), key(&mut m), key(&mut m));
            let l = m.list(LI, &[c, d]);
            m.subkeys(a, 2, l);
            m.subkeys(b, 2, l);
            let l = m.list(LH, &[a, b, a, c]);
            let l = m.list(RI, &[l, l]);
            m.subkeys(r, 8, l);
        }
        // a list entry and the subkeys list of a key are missing or lie outside of the hive
        _ => {
            let (a, b, c, d) = (key(&mut m), key(&mut m), key(&mut m), key(&mut m));
            let x = any_u32();
            assume(x >= 0x1000);
            let l = m.list(LI, &[c]);
            m.subkeys(b, 1, l);
            m.subkeys(a, 1, x);
            let y = any_u32();
            assume(y >= 0x1000);
            let l = m.list(LH, &[a, b, y]);
            let l2 = m.list(LF, &[d]);
            let i = m.list(RI, &[l, if any_u8() & 1 == 0 { l2 } else { y }, l2]);
            m.subkeys(r, 1, i);
        }
    }
    m
}

crate::harness! {
    clear_tree {
        let mut m = tree(case());
        let old = m.b.clone();
        let s = Regf::new(&old);
        let reach = Reach::new(&s);
        let r = match Hive::without_validation(&mut m.b[..]) {
            Ok(mut h) => h.clear_volatile_subkeys(),
            Err(_) => { p!(c15, false, 1500); return }
        };
        let mut at: Vec<usize> = Vec::new();
        for o in &reach.keys { at.push(Img::at(*o) + 24) }
        match &r {
            Ok(()) => {
                cover(1);
                p!(c15, reach.fine(), 1501);
                for p in &at {
                    let v = u32::from_le_bytes([m.b[*p], m.b[*p + 1], m.b[*p + 2], m.b[*p + 3]]);
                    p!(c15, v == 0, 1502);
                }
            }
            Err(e) => {
                cover(2);
                p!(c15, !reach.fine(), 1503);
                p!(c15, reach.error(&s, e), 1504);
                p!(c16, reach.error(&s, e), 1695);
            }
        }
        // nothing else has changed
        for i in 0..old.len() {
            let mut inside = false;
            for p in &at { inside |= i >= *p && i < *p + 4 }
            p!(c15, if inside { (m.b[i] == 0) | (m.b[i] == old[i]) } else { m.b[i] == old[i] }, 1505);
        }
    }
    // arbitrary bytes; the root key has at most one subkey, in a leaf, without a list of its own; cells do not overlap
    clear_wild {
        let b = any_hive_bytes(MAXLEN);
        let i = any_u64();
        let (lo, hi, root, sub, has, bad, old);
        {
            let s = Regf::new(&*b);
            let o = s.root_offset();
            let c = s.cell(o);
            let ok = s.key_ok(o);
            let off = s.u32(c.start + 28);
            let l = s.list(off);
            let there = ok & (off != NONE) & l.ok;
            assume(!there | (!l.ri & (l.count <= 1)));
            let l = if there { l.fixed() } else { l };
            let e = s.entry(&l, 0);
            has = there & (l.count == 1);
            let k = s.cell(e);
            let kok = s.key_ok(e);
            assume(!has | !kok | (s.u32(k.start + 28) == NONE));
            // the orders of the cells, one by one; of an unreadable cell its header counts
            let end = |c: &Cell| if c.ok { c.end } else { c.start };
            if ok && off != NONE {
                let ord = |x: &Cell, y: &Cell| if concretize((x.start >= end(y).wrapping_add(4)) as u64) == 0 { assume(y.start >= end(x).wrapping_add(4)) };
                ord(&c, &l.cell);
                if has { ord(&c, &k); ord(&k, &l.cell) }
            }
            bad = !ok | ((off != NONE) & !l.ok) | (has & !kok);
            root = if ok { BASE + c.start + 24 } else { 0 };
            sub = if has && kok { BASE + k.start + 24 } else { 0 };
            assume(i < b.len() as u64);
            old = peek(&*b, i, 1);
            lo = (root != 0) & (i >= root) & (i < root + 4);
            hi = (sub != 0) & (i >= sub) & (i < sub + 4);
        }
        let r = match Hive::without_validation(&mut *b) {
            Ok(mut h) => h.clear_volatile_subkeys().is_ok(),
            Err(_) => { p!(c15, false, 1510); return }
        };
        let now = peek(&*b, i, 1);
        p!(c15, r == !bad, 1511);
        if r {
            cover(1);
            if sub != 0 { cover(2); p!(c15, peek(&*b, sub, 4) == 0, 1512) }
            p!(c15, peek(&*b, root, 4) == 0, 1513);
            p!(c15, if lo | hi { now == 0 } else { now == old }, 1514);
        } else {
            cover(3);
            p!(c15, (now == old) | ((lo | hi) & (now == 0)), 1515);
        }
    }
    // a key that is its own subkey
    clear_cycle {
        let mut m = Img::new(512);
        let k = m.key(3, true);
        let l = m.list(LI, &[k]);
        m.subkeys(k, 1, l);
        m.root(k);
        let Ok(mut h) = Hive::without_validation(&mut m.b[..]) else { return };
        cover(1);
        let _ = h.clear_volatile_subkeys();
    }
}
