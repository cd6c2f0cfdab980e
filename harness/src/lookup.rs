//! subkey lookup by name
use crate::img::Img;
use crate::keys::root;
use crate::names::*;
use crate::sym::*;
use crate::values::name_matches;
use nt_hive::*;

/// a key with a name of arbitrary units: 'a', 'A': one, two Latin-1 units; 'u', 'U': one, two UTF-16LE units; 'e': the empty name
#[derive(Clone, Copy)]
pub struct Named { pub off: u32, pub u: [u16; 2], pub n: usize }
pub fn named(m: &mut Img, kind: u8) -> Named {
    let (n, latin) = match kind { b'a' => (1, true), b'A' => (2, true), b'u' => (1, false), b'U' => (2, false), _ => (0, true) };
    let off = m.key(if latin { n } else { 2 * n }, latin);
    let p = Img::at(off) + 76;
    let mut u = [0; 2];
    for i in 0..n {
        if latin { let x = any_u8(); m.w8(p + i, x); u[i] = x as u16 } else { u[i] = any_u16(); m.w16(p + 2 * i, u[i]) }
    }
    Named { off, u, n }
}
impl Named { pub fn units(&self) -> &[u16] { &self.u[..self.n] } }

/// subkeys of the root key: one leaf, or an index root over several, each with a signature and the kinds of its names
type Shape = &'static [(u16, &'static [u8])];
const SHAPES: &[(bool, Shape)] = &[
    (false, &[(LF, b"a")]),
    (false, &[(LH, b"au")]),
    (false, &[(LI, b"aua")]),
    (false, &[(LF, b"eaA")]),
    (false, &[(LH, b"aUu")]),
    (false, &[(LI, b"aaaa")]),
    (false, &[(LF, b"aaaaa")]),
    (true, &[(LH, b"a")]),
    (true, &[(LF, b"u"), (LI, b"u")]),
    (true, &[(LI, b"au"), (LH, b"ua")]),
    (true, &[(LH, b"aaa")]),
    (true, &[(LF, b"a"), (LF, b"aa"), (LH, b"a")]),
    (true, &[(LI, b"aa"), (LF, b"a"), (LH, b"aaa")]),
    (true, &[(LH, b"aaa"), (LH, b"aa")]),
    (true, &[(LH, b"a"), (LH, b"a"), (LI, b"a"), (LF, b"a")]),
];
fn build(case: usize) -> (Img, Vec<Named>) {
    let (ri, shape) = SHAPES[case];
    let mut m = Img::new(2048);
    let mut all = Vec::new();
    let mut leaves = Vec::new();
    for (sig, kinds) in shape {
        let mut offs = Vec::new();
        for k in kinds.iter() { let x = named(&mut m, *k); offs.push(x.off); all.push(x) }
        leaves.push(m.list(*sig, &offs));
    }
    let l = if ri { m.list(RI, &leaves) } else { leaves[0] };
    let k = m.key(0, true);
    m.subkeys(k, all.len() as u32, l);
    m.root(k);
    (m, all)
}
fn text(n: u64) -> Text { if n == 3 { Text::any(1) } else { Text::bmp(n as usize) } }

/// the subkey is one of the listed ones and has the name
fn found(s: &Regf, all: &[Named], k: &Key, t: &Text) -> bool {
    let mut r = false;
    for x in all { r |= is_key(s, k, x.off) & (order(x.units(), t.units()) == 0) }
    r
}

/// the error names a fault of an entry of the list, or of an entry of an entry
fn blame(s: &Regf, l: &List, e: &NtHiveError, max: u64) {
    let key = |o: u32| {
        let c = s.cell(o);
        let len = s.u16(c.start + 72) as u64;
        key_fault(s, e, o) | (s.key_ok(o) & field_fault(e, BASE + c.start + 72, !c.fits(76, len), len, c.len().wrapping_sub(76)))
    };
    let mut fine = false;
    for i in 0..max {
        if i >= l.count { break }
        if !l.ri { fine |= key(s.entry(l, i)); continue }
        let o = s.item4(l.items, i);
        fine |= list_fault(s, e, o, true);
        let q = s.list(o);
        if !q.ok | !q.leaf { continue }
        let q = q.fixed();
        for j in 0..max { fine |= (j < q.count) & key(s.entry(&q, j)) }
    }
    p!(c16, fine, 1643);
}

crate::harness! {
    // names in ascending order; case: 4 * shape + length of the searched name (3: a single character of any plane)
    look_sorted {
        let (m, all) = build(case() as usize / 4);
        for i in 1..all.len() { assume(order(all[i - 1].units(), all[i].units()) < 0) }
        let t = text(case() % 4);
        let s = Regf::new(&m.b);
        let Some(h) = open(&m.b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        match k.subkey(t.str()) {
            None => {
                cover(1);
                let mut any = false;
                for x in &all { any |= order(x.units(), t.units()) == 0 }
                p!(c11, !any, 1101);
            }
            Some(Ok(k)) => { cover(2); p!(c11, found(&s, &all, &k, &t), 1102) }
            Some(Err(_)) => p!(c11, false, 1103),
        }
    }
    // names in any order
    look_any {
        let (m, all) = build(case() as usize / 4);
        let t = text(case() % 4);
        let s = Regf::new(&m.b);
        let Some(h) = open(&m.b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        match k.subkey(t.str()) {
            None => cover(1),
            Some(Ok(k)) => { cover(2); p!(c11, found(&s, &all, &k, &t), 1110) }
            Some(Err(_)) => p!(c11, false, 1111),
        }
    }
    // a long list: names are letters in ascending order, two Latin-1 letters each; the searched name is arbitrary
    look_long {
        // (leaves of an index root, or 0; keys of each leaf)
        let (leaves, each) = [(0, 20), (6, 4), (0, 60), (9, 8), (16, 16)][case() as usize];
        let mut m = Img::new(300 * 96);
        let mut all = Vec::new();
        let mut lists = Vec::new();
        let mut n = 0;
        for i in 0..if leaves == 0 { 1 } else { leaves } {
            let first = all.len();
            for _ in 0..each {
                let k = m.key(2, true);
                let p = Img::at(k) + 76;
                m.w8(p, 0x41 + (n / 10) as u8);
                // lower and upper case letters alternate
                m.w8(p + 1, (if n & 1 == 0 { 0x42 } else { 0x62 }) + (n % 10 * 2) as u8);
                n += 1;
                all.push(k);
            }
            lists.push(m.list([LF, LH, LI][i % 3], &all[first..]));
        }
        let l = if leaves == 0 { lists[0] } else { m.list(RI, &lists) };
        let k = m.key(0, true);
        m.subkeys(k, n, l);
        m.root(k);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let x = any_u8();
        let y = any_u8();
        assume((x < 0x80) & (y < 0x80));
        let t = [x, y];
        let r = k.subkey(unsafe { core::str::from_utf8_unchecked(&t) });
        let up = |c: u8| if (c >= 0x61) & (c <= 0x7a) { c - 32 } else { c };
        let (x, y) = (up(x), up(y));
        let (i, j) = (x.wrapping_sub(0x41), y.wrapping_sub(0x42));
        let w = i as u32 * 10 + j as u32 / 2;
        let there = (j < 20) & (j & 1 == 0) & (w < n);
        match r {
            None => { cover(1); p!(c11, !there, 1120) }
            Some(Ok(k)) => {
                cover(2);
                p!(c11, there, 1121);
                let w = concretize(w as u64) as usize;
                p!(c11, w < all.len() && is_key(&s, &k, all[w]), 1122);
            }
            Some(Err(_)) => p!(c11, false, 1123),
        }
    }
    // a longer one: names are single UTF-16LE units without upper case, the searched name is an arbitrary character
    look_huge {
        let (leaves, each) = [(0, 300), (15, 20), (0, 3000), (60, 50)][case() as usize];
        let total = if leaves == 0 { each } else { leaves * each };
        let mut m = Img::new(total * 104 + 1024);
        let mut all = Vec::new();
        let mut lists = Vec::new();
        for i in 0..if leaves == 0 { 1 } else { leaves } {
            let first = all.len();
            for _ in 0..each {
                let k = m.key(2, false);
                m.w16(Img::at(k) + 76, 0x4e00 + 2 * all.len() as u16);
                all.push(k);
            }
            lists.push(m.list([LF, LH, LI][i % 3], &all[first..]));
        }
        let l = if leaves == 0 { lists[0] } else { m.list(RI, &lists) };
        let k = m.key(0, true);
        m.subkeys(k, total as u32, l);
        m.root(k);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let t = Text::bmp(1);
        let w = t.u[0].wrapping_sub(0x4e00);
        let there = (w & 1 == 0) & ((w as usize) < 2 * total);
        match k.subkey(t.str()) {
            None => { cover(1); p!(c11, !there, 1125) }
            Some(Ok(k)) => {
                cover(2);
                p!(c11, there, 1126);
                let w = concretize(w as u64 / 2) as usize;
                p!(c11, w < all.len() && is_key(&s, &k, all[w]), 1127);
            }
            Some(Err(_)) => p!(c11, false, 1128),
        }
    }
    // as many subkeys as a leaf or an index root can have; the searched name is next to one of a few of them
    look_max {
        // (leaves of an index root, or 0; keys of each leaf)
        let (leaves, each) = [(0, 65535u32), (0, 33000), (40000, 1), (3, 35000)][case() as usize];
        let total = if leaves == 0 { each } else { leaves * each };
        let mut m = Img::new(total as usize * 112 + leaves as usize * 24 + 1024);
        let mut all = Vec::new();
        for i in 0..total {
            let k = m.key(4, false);
            m.w16(Img::at(k) + 76, 0x4e00 + (i >> 8) as u16);
            m.w16(Img::at(k) + 78, 0x4e00 + (i & 255) as u16);
            all.push(k);
        }
        let l = if leaves == 0 { m.list(LI, &all) } else {
            let mut lists = Vec::new();
            for i in 0..leaves { lists.push(m.list(LI, &all[(i * each) as usize..((i + 1) * each) as usize])) }
            m.list(RI, &lists)
        };
        let k = m.key(0, true);
        m.subkeys(k, total, l);
        m.root(k);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let hi = any_u16() as u64;
        assume((hi == 0) | (hi == (total >> 9) as u64) | (hi == (total >> 8) as u64));
        let hi = concretize(hi);
        let lo = any_u16();
        assume((lo < 0x4e03) & (lo > 0x4dfe) | (lo > 0x4efd) & (lo < 0x4f02));
        let lo = concretize(lo as u64) as u32;
        let mut t = Text::new();
        t.put(0x4e00 + hi as u32);
        t.put(lo);
        let w = hi.wrapping_mul(256).wrapping_add((lo as u64).wrapping_sub(0x4e00));
        let there = (lo >= 0x4e00) & (lo < 0x4f00) & (w < total as u64);
        match k.subkey(t.str()) {
            None => { cover(1); p!(c11, !there, 1145) }
            Some(Ok(k)) => { cover(2); p!(c11, there && is_key(&s, &k, all[w as usize]), 1146) }
            Some(Err(_)) => p!(c11, false, 1147),
        }
    }
    // arbitrary bytes: at most case / 4 entries in every list; searched name of case % 4 units
    look_wild {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 28);
        let max = case() / 4;
        let l = s.list(off);
        let t = Text::bmp((case() % 4) as usize);
        assume((off != NONE) & l.ok);
        assume(l.count <= max);
        let l = l.fixed();
        if l.ri { for i in 0..max { let e = s.list(s.item4(l.items, i)); assume((i >= l.count) | !e.ok | (e.count <= max)) } }
        let Some(r) = k.subkey(t.str()) else { cover(1); p!(c11, (l.count > 0) | !l.ok | true, 1130); return };
        let k = match r {
            Ok(k) => k,
            Err(e) => {
                cover(2);
                if c16 { blame(&s, &l, &e, max) }
                return
            }
        };
        cover(3);
        // one of the listed keys, of that name
        let mut fine = false;
        for i in 0..max {
            if i >= l.count { break }
            if !l.ri { fine |= has(&s, &k, s.entry(&l, i), &t); continue }
            let e = s.list(s.item4(l.items, i)).fixed();
            for j in 0..max { fine |= (j < e.count) & has(&s, &k, s.entry(&e, j), &t) }
        }
        p!(c11, fine, 1131);
    }
    // no list, an unreadable list, an empty one
    look_none {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 28);
        let l = s.list(off);
        assume((off == NONE) | !l.ok | (l.count == 0));
        match k.subkey("x") {
            None => { cover(1); p!(c11, (off == NONE) | (l.ok & (l.count == 0)), 1140) }
            Some(Err(e)) => {
                cover(2);
                p!(c11, (off != NONE) & !l.ok, 1141);
                p!(c16, list_fault(&s, &e, off, false), 1642);
            }
            Some(Ok(_)) => p!(c11, false, 1143),
        }
    }
}
/// `k` is the key at `off` and has the name `t`
fn has(s: &Regf, k: &Key, off: u32, t: &Text) -> bool {
    let c = s.cell(off);
    let len = s.u16(c.start + 72) as u64;
    is_key(s, k, off) & c.fits(76, len) && name_matches(s, c.start + 76, len, s.u16(c.start + 2) & 0x20 != 0, t.units())
}
