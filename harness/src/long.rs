//! long lists, names, paths and data: a few places in them are arbitrary
use crate::data::value0;
use crate::img::Img;
use crate::keys::root;
use crate::names::{decode, same, Text};
use crate::strs::upto;
use crate::sym::*;
use crate::upper::upper;
use core::cmp::Ordering;
use core::fmt::Write;
use nt_hive::*;

/// one of the given numbers
fn one_of(at: &[usize]) -> usize {
    let x = any_u32() as usize;
    let mut ok = false;
    for a in at { ok |= x == *a }
    assume(ok);
    concretize(x as u64) as usize
}

/// a root key with a long list of subkeys: the image and the subkeys in order
fn many(case: u64) -> (Img, Vec<u32>) {
    let one = [1usize; 300];
    let sizes: &[usize] = match case { 0 | 1 | 2 => &[300], 3 => &[1, 260, 3, 40], 5 => &[560, 1100], _ => &one };
    let mut m = Img::new(170000);
    let mut all = Vec::new();
    let mut lists = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        let from = all.len();
        for _ in 0..*n {
            let k = m.key(0, true);
            m.w32(Img::at(k) + 24, 7);
            all.push(k)
        }
        lists.push(m.list([LF, LH, LI][(i + case as usize) % 3], &all[from..]));
    }
    let l = if sizes.len() == 1 { lists[0] } else { m.list(RI, &lists) };
    let r = m.key(0, true);
    m.subkeys(r, all.len() as u32, l);
    m.root(r);
    // some of the keys may not be keys
    let at: &[usize] = if case == 3 { &[1, 260] } else if case == 5 { &[559, 560] } else { &[255, 256] };
    for i in at { let x = any_u16(); m.w16(Img::at(all[*i]), x) }
    (m, all)
}
/// the item is the one for the key at `o`
fn fits(s: &Regf, r: &Option<Result<Key>>, o: u32) -> bool {
    match r { Some(Ok(k)) => s.key_ok(o) & is_key(s, k, o), Some(Err(_)) => !s.key_ok(o), None => false }
}

/// a root key with 300 values of names of one unit
fn values() -> (Img, Vec<u32>) {
    let mut m = Img::new(20000);
    let mut all = Vec::new();
    for i in 0..300 {
        let o = m.cell(22);
        let p = Img::at(o);
        m.w16(p, VK);
        m.w16(p + 2, 2);
        m.w16(p + 20, 0x4e00 + i);
        all.push(o)
    }
    let l = m.offsets(&all);
    let r = m.key(0, true);
    m.values(r, 300, l);
    m.root(r);
    (m, all)
}

/// a value of 299 * 16344 + 100 bytes: the same segment 299 times, but for the 257th and the last one, whose size fields are arbitrary
fn segments() -> (Img, [u32; 3]) {
    let mut m = Img::new(2 * 16352 + 4096);
    let (a, b, z) = (m.cell(16344), m.cell(16344), m.cell(100));
    let (x, y) = (any_u32(), any_u32());
    m.w32(Img::at(b) - 4, x);
    m.w32(Img::at(z) - 4, y);
    let mut all = [a; 300];
    all[256] = b;
    all[299] = z;
    let l = m.offsets(&all);
    let d = m.cell(8);
    m.w16(Img::at(d), DB);
    m.w16(Img::at(d) + 2, 300);
    m.w32(Img::at(d) + 4, l);
    let v = m.value(299 * 16344 + 100, d, 3);
    let l = m.offsets(&[v]);
    let k = m.key(0, true);
    m.values(k, 1, l);
    m.root(k);
    (m, [a, b, z])
}

/// a value of type `ty` with these units
fn text_value(u: &[u16], ty: u32) -> Img {
    let mut m = Img::new(2 * u.len() + 512);
    let d = m.cell(2 * u.len());
    for (i, x) in u.iter().enumerate() { m.w16(Img::at(d) + 2 * i, *x) }
    let v = m.value(2 * u.len() as u32, d, ty);
    let l = m.offsets(&[v]);
    let k = m.key(0, true);
    m.values(k, 1, l);
    m.root(k);
    m
}
/// x is `n` letters, then t, then letters up to `len` units in all
fn around(x: &[u8], n: usize, t: &Text, after: usize) -> bool {
    if x.len() != n + t.len + after { return false }
    let mut r = same(&x[n..n + t.len], t);
    for i in 0..n { r &= x[i] == 0x78 }
    for i in n + t.len..x.len() { r &= x[i] == 0x78 }
    r
}

/// a long name, of one letter, with an arbitrary unit or two arbitrary Latin-1 units
struct Name { b: Vec<u8>, latin: bool, n: usize, u: [u16; 2] }
impl Name {
    fn new(latin: bool, n: usize, at: [usize; 2], letter: u8, two: bool) -> Self {
        let u = if two { [any_u8() as u16, any_u8() as u16] } else { [if latin { any_u8() as u16 } else { any_u16() }, letter as u16] };
        let mut b = Vec::new();
        for i in 0..n {
            let x = if i == at[0] { u[0] } else if i == at[1] { u[1] } else { letter as u16 };
            b.push(x as u8);
            if !latin { b.push((x >> 8) as u8) }
        }
        Name { b, latin, n, u }
    }
    fn name(&self) -> NtHiveNameString<'_> { if self.latin { NtHiveNameString::Latin1(&self.b) } else { NtHiveNameString::Utf16LE(&self.b) } }
}
fn order(a: &Name, b: &Name, at: [usize; 2]) -> i32 {
    let mut r = if a.n < b.n { -1 } else if a.n > b.n { 1 } else { 0 };
    for i in if at[0] < at[1] { [1, 0] } else { [0, 1] } {
        if at[i] < a.n && at[i] < b.n {
            let (x, y) = (upper(a.u[i]), upper(b.u[i]));
            r = if x < y { -1 } else if x > y { 1 } else { r }
        }
    }
    r
}
fn num(o: Option<Ordering>) -> i32 { match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 9 } }

struct Sink(Vec<u8>);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) }
}

crate::harness! {
    // all items of a long list of subkeys, and the shortcuts over them
    long_keys {
        let (m, all) = many(case());
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let Some(Ok(mut it)) = k.subkeys() else { p!(c12, false, 1250); p!(c17, false, 1770); return };
        let z = all.len();
        if c17 {
            let n = one_of(&[0, 1, 127, 254, 255, 256, 299, 300, 303, 304, 65536, 0x1000000]);
            let mut i = it.clone();
            let r = i.nth(n);
            let q = i.next();
            if n >= z { cover(1); check(r.is_none() & q.is_none(), 1772) }
            else {
                cover(2);
                check(fits(&s, &r, all[n]), 1773);
                if n + 1 < z { check(fits(&s, &q, all[n + 1]), 1774) } else { check(q.is_none(), 1775) }
            }
            if n == 0 {
                check(it.clone().count() == z, 1776);
                check(fits(&s, &it.clone().last(), all[z - 1]), 1777);
            } else { return }
        } else { cover(1); cover(2) }
        for (i, o) in all.iter().enumerate() {
            if c17 {
                let (lo, hi) = it.size_hint();
                check((lo <= z - i) & match hi { Some(x) => x >= z - i, None => true }, 1771);
            }
            let r = it.next();
            p!(c12, fits(&s, &r, *o), 1251);
            p!(c17, fits(&s, &r, *o), 1778);
        }
        cover(3);
        let r = it.next();
        p!(c12, r.is_none(), 1252);
        p!(c17, r.is_none(), 1779);
        p!(c17, it.next().is_none() & it.nth(0).is_none(), 1780);
    }
    // all items of a long list of values
    long_values {
        let (mut m, all) = values();
        for i in [255, 256] { let x = any_u16(); m.w16(Img::at(all[i]), x) }
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let Some(Ok(mut it)) = k.values() else { p!(c13, false, 1350); return };
        p!(c17, it.size_hint() == (300, Some(300)), 1781);
        for o in &all {
            match it.next() {
                Some(Ok(v)) => { p!(c13, s.value_ok(*o) & is_val(&s, &v, *o), 1351) }
                Some(Err(_)) => { cover(1); p!(c13, !s.value_ok(*o), 1352) }
                None => { p!(c13, false, 1353); p!(c17, false, 1782) }
            }
        }
        cover(2);
        p!(c13, it.next().is_none(), 1354);
    }
    // looking up one of them
    long_find {
        let (m, all) = values();
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let t = Text::bmp(1);
        let w = t.u[0].wrapping_sub(0x4e00);
        assume((w < 2) | (w > 253) & (w < 258) | (w > 297));
        match k.value(t.str()) {
            None => { cover(1); p!(c13, w >= 300, 1360) }
            Some(Ok(v)) => {
                cover(2);
                p!(c13, w < 300, 1361);
                let w = concretize(w as u64) as usize;
                p!(c13, w < 300 && is_val(&s, &v, all[w]), 1362);
            }
            Some(Err(_)) => p!(c13, false, 1363),
        }
    }
    // all segments of a long value
    long_big {
        let (m, at) = segments();
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, _)) = value0(&s, &h) else { p!(c05, false, 560); return };
        let Ok(KeyValueData::Big(mut it)) = v.data() else { p!(c05, false, 561); return };
        p!(c05, it.len() == 300, 562);
        for i in 0..300 {
            let o = if i == 256 { at[1] } else if i == 299 { at[2] } else { at[0] };
            let n = if i == 299 { 100 } else { BIG };
            let c = s.cell(o);
            let good = c.ok & c.fits(0, n);
            match it.next() {
                Some(Ok(x)) => p!(c05, good & (pos(b, x) == BASE + c.start) & (x.len() as u64 == n), 563),
                Some(Err(_)) => { cover(1); p!(c05, !good, 564) }
                None => p!(c05, false, 565),
            }
        }
        cover(2);
        p!(c05, it.next().is_none(), 566);
    }
    // a path of 300 components, one of which is an arbitrary character
    long_path {
        let depth = 300;
        let mut m = Img::new(depth * 104 + 256);
        let mut all = Vec::new();
        for i in 0..depth + 1 {
            let k = m.key(1, true);
            m.w8(Img::at(k) + 76, if i & 1 == 0 { b'A' } else { b'b' });
            all.push(k);
        }
        for i in 0..depth { let l = m.list([LI, LF, LH][i % 3], &[all[i + 1]]); m.subkeys(all[i], 1, l) }
        m.root(all[0]);
        let at = one_of(&[0, 6, 31, 127, 254, 255, 256, 298, 299]);
        let x = any_u8();
        assume(x < 0x80);
        let mut t = Vec::new();
        for i in 0..depth {
            t.push(if i == at { x } else if i & 1 == 0 { b'B' } else { b'a' });
            t.push(b'\\');
        }
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let r = k.subpath(unsafe { core::str::from_utf8_unchecked(&t) });
        let name = if at & 1 == 0 { b'b' } else { b'a' };
        match r {
            None => { cover(1); p!(c14, (x | 0x20 != name) & !((x == b'\\') & (at == depth - 1)), 1450) }
            Some(Ok(k)) => {
                cover(2);
                p!(c14, if x == b'\\' { (at == depth - 1) && is_key(&s, &k, all[depth - 1]) } else { (x | 0x20 == name) && is_key(&s, &k, all[depth]) }, 1451);
            }
            Some(Err(_)) => p!(c14, false, 1452),
        }
    }
    // long names; case: bit 0, 1: the left, right one is UTF-16LE; bit 2: two arbitrary units each, otherwise one
    long_cmp {
        let k = case();
        let at = [[0, 7], [127, 128], [255, 256], [298, 3]][one_of(&[0, 1, 2, 3])];
        let m = if k & 4 == 0 { one_of(&[44, 299, 300]) } else { 299 };
        let a = Name::new(k & 1 == 0, 299, at, if k & 4 == 0 { b'x' } else { b'X' }, k & 4 != 0);
        let b = Name::new(k & 2 == 0, m, at, b'X', k & 4 != 0);
        let w = order(&a, &b, at);
        let (x, y) = (a.name(), b.name());
        if w == 0 { cover(1) } else if w < 0 { cover(2) } else { cover(3) }
        p!(c09, num(Some(x.cmp(&y))) == w, 950);
        p!(c09, (x == y) == (w == 0), 951);
        p!(c09, num(y.partial_cmp(&x)) == -w, 952);
        // text: the right one, if its arbitrary unit is a letter
        let plain = |i: usize| (at[i] >= m) | (b.u[i] >= 0x20) & (b.u[i] < 0x7f);
        if plain(0) & plain(1) {
            cover(4);
            let mut t = Vec::new();
            for i in 0..m { t.push(if i == at[0] { b.u[0] as u8 } else if i == at[1] { b.u[1] as u8 } else { b'X' }) }
            let t = unsafe { core::str::from_utf8_unchecked(&t) };
            p!(c09, num(x.partial_cmp(t)) == w, 953);
            p!(c09, (x == *t) == (w == 0), 954);
            p!(c09, (*t == x) == (w == 0), 955);
        }
    }
    // conversion of a long name with two arbitrary units
    long_text {
        let latin = case() & 1 == 0;
        let at = one_of(&[0, 126, 127, 128, 254, 255, 256, 298]);
        let mut u = [0x78u16; 300];
        for i in 0..2 { u[at + i] = if latin { any_u8() as u16 } else { any_u16() } }
        let mut b = Vec::new();
        for x in u { b.push(x as u8); if !latin { b.push((x >> 8) as u8) } }
        let x = if latin { NtHiveNameString::Latin1(&b) } else { NtHiveNameString::Utf16LE(&b) };
        let (t, clean) = decode(&u[at..at + 2]);
        if clean { cover(1) } else { cover(2) }
        p!(c10, (x.len() == b.len()) & !x.is_empty(), 1050);
        match x.to_string_checked() {
            Some(s) => p!(c10, clean && around(s.as_bytes(), at, &t, 298 - at), 1051),
            None => p!(c10, !clean, 1052),
        }
        p!(c10, around(x.to_string_lossy().as_bytes(), at, &t, 298 - at), 1053);
        let mut o = Sink(Vec::new());
        let r = write!(o, "{}", x);
        p!(c10, r.is_ok() && around(&o.0, at, &t, 298 - at), 1054);
    }
    // a long string in one cell with two arbitrary units
    long_str {
        let len = one_of(&[301, 8172]);
        let at = if len == 301 { one_of(&[127, 255, 298, 299]) } else { one_of(&[4095, 8170]) };
        let mut u = vec![0x78u16; len];
        for i in 0..2 { u[at + i] = any_u16() }
        let m = text_value(&u, 1);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, _)) = value0(&s, &h) else { p!(c07, false, 750); return };
        let w = upto(&u[at..at + 2]);
        let (t, _) = decode(&u[at..at + w]);
        match v.string_data() {
            Ok(x) => {
                if w == 2 { cover(1) } else { cover(2) }
                p!(c07, around(x.as_bytes(), at, &t, if w == 2 { len - 2 - at } else { 0 }), 751);
            }
            Err(_) => p!(c07, false, 752),
        }
    }
    // a list of many strings with two arbitrary units
    long_multi {
        let at = one_of(&[0, 1, 255, 256, 510, 511, 598]);
        let mut u = [0u16; 600];
        for i in 0..300 { u[2 * i] = 0x78 }
        for i in 0..2 { u[at + i] = any_u16() }
        let m = text_value(&u, 7);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, _)) = value0(&s, &h) else { p!(c08, false, 850); return };
        let Ok(mut it) = v.multi_string_data() else { p!(c08, false, 851); return };
        let mut i = 0;
        let mut n = 0;
        loop {
            let w = if i < 600 { upto(&u[i..]) } else { 0 };
            if w == 0 { break }
            let (t, _) = decode(&u[i..i + w]);
            match it.next() { Some(Ok(x)) => p!(c08, same(x.as_bytes(), &t), 852), _ => p!(c08, false, 853) }
            i += w + 1;
            n += 1;
        }
        if n > 299 { cover(1) } else { cover(2) }
        p!(c08, it.next().is_none(), 854);
        p!(c08, it.next().is_none(), 855);
    }
    // clearing: case 0 .. 4: long lists; 5: 60 levels
    long_clear {
        let (mut m, all) = if case() < 5 { many(case()) } else {
            let mut m = Img::new(8000);
            let mut all = Vec::new();
            for _ in 0..60 { let k = m.key(0, true); m.w32(Img::at(k) + 24, 9); all.push(k) }
            for i in 0..59 { let l = m.list([LI, LF, LH][i % 3], &[all[i + 1]]); m.subkeys(all[i], 1, l) }
            m.root(all[0]);
            let x = any_u16();
            m.w16(Img::at(all[59]), x);
            (m, all)
        };
        let mut at = vec![false; m.b.len()];
        let r = u32::from_le_bytes([m.b[36], m.b[37], m.b[38], m.b[39]]);
        let v = any_u32();
        m.w32(Img::at(r) + 24, v);
        let old = m.b.clone();
        let s = Regf::new(&old);
        let mut fine = true;
        for o in all.iter().chain([&r]) { fine &= s.key_ok(*o); for i in 0..4 { at[Img::at(*o) + 24 + i] = true } }
        let done = match Hive::without_validation(&mut m.b[..]) { Ok(mut h) => h.clear_volatile_subkeys().is_ok(), Err(_) => return };
        p!(c15, done == fine, 1550);
        if done { cover(1) } else { cover(2) }
        for i in 0..old.len() {
            if !at[i] { p!(c15, m.b[i] == old[i], 1551) }
            else if done { p!(c15, m.b[i] == 0, 1552) }
            else { p!(c15, (m.b[i] == 0) | (m.b[i] == old[i]), 1553) }
        }
    }
}
