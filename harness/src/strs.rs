//! strings and multi-strings
use crate::data::*;
use crate::img::Img;
use crate::names::{decode, Text, same};
use crate::sym::*;
use nt_hive::*;

/// units of a text up to its first NUL
pub fn upto(u: &[u16]) -> usize {
    let mut i = 0;
    while i < u.len() && u[i] != 0 { i += 1 }
    i
}
/// the units of small data of up to 2 * M + 1 bytes
pub const M: usize = 5;
pub fn units(s: &Regf, k: &Vk) -> ([u16; M], usize) {
    let n = k.size as usize / 2;
    let mut u = [0; M];
    for i in 0..n { u[i] = s.u16(k.start() + 2 * i as u64) }
    (u, n)
}
fn whole(x: &str, t: &Text) -> bool { same(x.as_bytes(), t) }

/// big data of `PRE` letters, three arbitrary units of which the first is the last one of the first segment, and a letter;
/// `bad`: the second segment is not readable
const PRE: usize = 8171;
fn boundary(ty: u32, bad: bool) -> (Img, [u16; 4]) {
    let mut m = Img::new(40000);
    let u = [any_u16(), any_u16(), any_u16(), 0x7a];
    let size = 2 * (PRE + 4) + 1;
    let (a, z) = (m.cell(16344), m.cell(32));
    for i in 0..PRE { m.w16(Img::at(a) + 2 * i, 0x61) }
    m.w16(Img::at(a) + 2 * PRE, u[0]);
    for i in 1..4 { m.w16(Img::at(z) + 2 * (i - 1), u[i]) }
    if bad { m.w32(Img::at(z) - 4, 8) }
    let l = m.offsets(&[a, z]);
    let d = m.cell(8);
    m.w16(Img::at(d), DB);
    m.w16(Img::at(d) + 2, 2);
    m.w32(Img::at(d) + 4, l);
    let v = m.value(size as u32, d, ty);
    let l = m.offsets(&[v]);
    let k = m.key(0, true);
    m.values(k, 1, l);
    m.root(k);
    (m, u)
}
fn long(x: &str, t: &Text) -> bool {
    let b = x.as_bytes();
    if b.len() != PRE + t.len { return false }
    let mut r = same(&b[PRE..], t);
    for i in [0, 1, 17, 4000, PRE - 2, PRE - 1] { r &= b[i] == 0x61 }
    r
}

crate::harness! {
    // every type and every unreadable data; strings of at most one unit
    str_kind {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume((k.size <= 3) | !k.small());
        assume(!k.big());
        let multi = case() == 1;
        let fits = if multi { k.ty == 7 } else { (k.ty == 1) | (k.ty == 2) };
        let e = if multi {
            match v.multi_string_data() { Ok(_) => { cover(1); p!(c08, fits & k.small(), 801); return } Err(e) => e }
        } else {
            match v.string_data() { Ok(_) => { cover(1); p!(c07, fits & k.small(), 701); return } Err(e) => e }
        };
        if multi { p!(c08, !(fits & k.small()), 802) } else { p!(c07, !(fits & k.small()), 702) }
        match e {
            NtHiveError::InvalidKeyValueDataType { .. } => cover(2),
            NtHiveError::UnsupportedKeyValueDataType { .. } => cover(3),
            _ => cover(4),
        }
        p!(c16, data_fault(&s, &e, &k) | type_fault(&e, &k, if multi { &[7] } else { &[1, 2] }), 1690);
    }
    // strings of up to case/2 units and half a unit; in the value itself (case even), in a cell (odd)
    str_small {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        let max = case() / 2;
        assume(k.small() & (k.size <= 2 * max + 1) & ((k.ty == 1) | (k.ty == 2)) & (k.stored == (case() & 1 == 0)));
        let k = Vk { size: concretize(k.size), ..k };
        let (u, n) = units(&s, &k);
        match v.string_data() {
            Err(_) => p!(c07, false, 711),
            Ok(x) => {
                let w = upto(&u[..n]);
                if w < n { cover(1) } else { cover(2) }
                let (t, clean) = decode(&u[..w]);
                if !clean { cover(3) }
                p!(c07, whole(&x, &t), 712);
            }
        }
    }
    str_big {
        let bad = case() == 1;
        let (m, u) = boundary(1, bad);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, _)) = value0(&s, &h) else { p!(c07, false, 720); return };
        let w = upto(&u);
        match v.string_data() {
            Err(_) => { cover(1); p!(c07, bad & (w > 0), 721) }
            Ok(x) => {
                p!(c07, !bad | (w == 0), 722);
                if w > 1 { cover(2) } else if w == 0 { cover(3) }
                let (t, clean) = decode(&u[..w]);
                if w == 4 && clean && t.len > 6 { cover(4) }
                p!(c07, long(&x, &t), 723);
            }
        }
    }
    // lists of up to case/2 units; in the value itself (case even), in a cell (odd)
    multi_small {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        let max = case() / 2;
        assume(k.small() & (k.size <= 2 * max + 1) & (k.ty == 7) & (k.stored == (case() & 1 == 0)));
        let k = Vk { size: concretize(k.size), ..k };
        let (u, n) = units(&s, &k);
        let Ok(mut it) = v.multi_string_data() else { p!(c08, false, 811); return };
        let mut i = 0;
        let mut lines = 0;
        loop {
            let w = upto(&u[i..n]);
            let r = it.next();
            if w == 0 {
                if i < n { cover(1) } else { cover(2) }
                p!(c08, r.is_none(), 812);
                p!(c08, it.next().is_none(), 813);
                p!(c08, it.next().is_none(), 814);
                p!(c08, it.next().is_none(), 815);
                return
            }
            lines += 1;
            if lines == 2 { cover(3) }
            let (t, clean) = decode(&u[i..i + w]);
            if !clean { cover(4) }
            match r { Some(Ok(x)) => p!(c08, whole(&x, &t), 816), _ => p!(c08, false, 817) }
            i += w;
            if i < n { i += 1 } else { cover(5) }
        }
    }
    multi_big {
        let bad = case() == 1;
        let (m, u) = boundary(7, bad);
        let b = &m.b[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, _)) = value0(&s, &h) else { p!(c08, false, 820); return };
        let Ok(mut it) = v.multi_string_data() else { p!(c08, false, 821); return };
        let w = upto(&u);
        let (t, clean) = decode(&u[..w]);
        let r = it.next();
        if bad {
            if w > 0 { cover(1); p!(c08, matches!(r, Some(Err(_))), 822) }
            else {
                match r { Some(Ok(x)) => p!(c08, long(&x, &t), 823), _ => p!(c08, false, 824) }
                p!(c08, matches!(it.next(), Some(Err(_))), 825);
                cover(2);
            }
            return
        }
        match r { Some(Ok(x)) => p!(c08, long(&x, &t), 826), _ => p!(c08, false, 827) }
        if w == 4 && clean && t.len > 6 { cover(3) }
        let mut i = w + 1;
        loop {
            if i >= 4 || u[i] == 0 {
                if i < 4 { cover(4) } else { cover(5) }
                p!(c08, it.next().is_none(), 828);
                p!(c08, it.next().is_none(), 829);
                return
            }
            let w = upto(&u[i..]);
            let (t, _) = decode(&u[i..i + w]);
            match it.next() { Some(Ok(x)) => p!(c08, whole(&x, &t), 830), _ => p!(c08, false, 831) }
            cover(6);
            i += w + 1;
        }
    }
}
