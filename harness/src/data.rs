//! raw data, types and integers of values
use crate::keys::root;
use crate::sym::*;
use nt_hive::*;

/// header fields of a value
#[derive(Clone, Copy)]
pub struct Vk { pub c: Cell, pub stored: bool, pub size: u64, pub off: u32, pub d: Cell, pub ty: u32 }
impl Vk {
    pub fn at(s: &Regf, c: Cell) -> Self {
        let f = s.u32(c.start + 4);
        let off = s.u32(c.start + 8);
        Vk { c, stored: f >> 31 != 0, size: (f & 0x7fff_ffff) as u64, off, d: s.cell(off), ty: s.u32(c.start + 12) }
    }
    /// the data is readable and small
    pub fn small(&self) -> bool { (self.stored & (self.size <= 4)) | (!self.stored & (self.size <= BIG) & self.d.ok & self.d.fits(0, self.size)) }
    pub fn big(&self) -> bool { !self.stored & (self.size > BIG) }
    /// where small data starts, relative to the hive bins data
    pub fn start(&self) -> u64 { if self.stored { self.c.start + 8 } else { self.d.start } }
}
/// the first value of the root key
pub fn value0<'a>(s: &Regf, h: &'a H<'a>) -> Option<(Val<'a>, Vk)> {
    let (k, c) = root(s, h)?;
    let l = s.cell(s.u32(c.start + 40));
    let Some(Ok(mut it)) = k.values() else { return None };
    let Some(Ok(v)) = it.next() else { return None };
    Some((v, Vk::at(s, s.cell(s.u32(l.start)))))
}

fn size_fault(e: &NtHiveError, at: u64, broken: bool, want: u64, have: u64) -> bool {
    match e {
        NtHiveError::InvalidDataSize { offset, expected, actual } =>
            broken & (*offset as u64 == at) & (*expected as u64 == want) & (*actual as u64 == have),
        _ => false,
    }
}
/// the error quotes the two numbers a and b of the size rule broken at `field`, whichever of them it calls the expected one
fn either(e: &NtHiveError, field: u64, broken: bool, a: u64, b: u64) -> bool { field_fault(e, field, broken, a, b) | field_fault(e, field, broken, b, a) }
/// big data header, segment list
#[derive(Clone, Copy)]
pub struct Db { pub h: Cell, pub fits: bool, pub sig: bool, pub count: u64, pub lo: u32, pub l: Cell }
impl Db {
    pub fn at(s: &Regf, v: &Vk) -> Self {
        let h = v.d;
        let lo = s.u32(h.start + 4);
        Db { h, fits: h.ok & h.fits(0, 8), sig: s.u16(h.start) == DB, count: s.u16(h.start + 2) as u64, lo, l: s.cell(lo) }
    }
    pub fn ok(&self, v: &Vk) -> bool { self.fits & self.sig & (v.size <= self.count * BIG) & self.l.ok & self.l.fits(0, self.count * 4) }
    fn fault(&self, s: &Regf, e: &NtHiveError, v: &Vk) -> bool {
        cell_fault(s, e, v.off) | small_fault(s, e, v.off, 8) | sig_fault(s, e, v.off, &[DB])
            | either(e, BASE + v.c.start + 4, self.fits & self.sig & (v.size > self.count * BIG), self.count * BIG, v.size)
            | (self.fits & self.sig & cell_fault(s, e, self.lo))
            | field_fault(e, BASE + self.h.start + 2, self.fits & self.sig & self.l.ok & !self.l.fits(0, self.count * 4), self.count * 4, self.l.len())
    }
}
/// the error is true of the value's data
pub fn data_fault(s: &Regf, e: &NtHiveError, v: &Vk) -> bool {
    (v.stored & either(e, BASE + v.c.start + 4, v.size > 4, 4, v.size))
        | (!v.stored & (v.size <= BIG) & (cell_fault(s, e, v.off)
            | size_fault(e, BASE + v.d.start, v.d.ok & !v.d.fits(0, v.size), v.size, v.d.len())))
        | (v.big() & Db::at(s, v).fault(s, e, v))
}
pub fn type_fault(e: &NtHiveError, v: &Vk, allowed: &[u32]) -> bool {
    match e {
        NtHiveError::UnsupportedKeyValueDataType { offset, actual } => (*offset as u64 == BASE + v.c.start + 12) & (*actual == v.ty) & (v.ty > 11),
        NtHiveError::InvalidKeyValueDataType { expected, actual } => {
            let mut fine = (*actual as u32 == v.ty) & (expected.len() == allowed.len());
            for a in allowed {
                fine &= v.ty != *a;
                let mut one = false;
                for x in expected.iter() { one |= *x as u32 == *a }
                fine &= one;
            }
            fine
        }
        _ => false,
    }
}

crate::harness! {
    data_raw {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        p!(c04, v.data_size() as u64 == k.size, 401);
        match v.data() {
            Ok(KeyValueData::Small(x)) => {
                cover(1);
                if k.stored {
                    cover(2);
                    p!(c04, k.size <= 4, 402);
                    p!(c04, pos(b, x) == BASE + k.c.start + 8, 403);
                } else {
                    cover(3);
                    p!(c04, k.size <= BIG, 404);
                    p!(c04, k.d.ok & k.d.fits(0, k.size), 405);
                    p!(c02, k.d.ok & k.d.fits(0, k.size), 280);
                    p!(c04, pos(b, x) == BASE + k.d.start, 406);
                }
                p!(c04, x.len() as u64 == k.size, 407);
            }
            Ok(KeyValueData::Big(_)) => { cover(4); p!(c04, k.big(), 408); }
            Err(e) => {
                cover(5);
                p!(c04, !k.small(), 409);
                p!(c02, k.stored | !(k.d.ok & k.d.fits(0, k.size)) | k.big(), 281);
                p!(c16, data_fault(&s, &e, &k), 1670);
            }
        }
    }
    // collected data; case 0: up to 4 bytes in the value itself, 1: a cell of up to 12 bytes, 2..: a cell of 16344, 16343, 4096, ... bytes
    data_vec {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        let n = match case() {
            0 => { assume(k.stored & (k.size <= 4)); concretize(k.size) }
            1 => { assume(!k.stored & (k.size <= 12)); concretize(k.size) }
            c => { let n = [16344, 16343, 4096, 255, 1000][c as usize - 2]; assume(!k.stored & (k.size == n)); n }
        };
        let Ok(d) = v.data() else { cover(1); return };
        let Ok(x) = d.into_vec() else { p!(c04, false, 420); return };
        cover(2);
        p!(c04, x.len() as u64 == n, 421);
        if x.len() as u64 != n { return }
        let mut i = 0;
        while i < n {
            p!(c04, x[i as usize] == s.u8(k.start() + i), 422);
            i += if n < 16 || n - i < 4 { 1 } else { (n - i) / 3 };
        }
    }
    // case 0: type, 1: 32 bits, 2: 64 bits
    data_num {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        match case() {
            0 => match v.data_type() {
                Ok(t) => {
                    cover(1);
                    p!(c06, k.ty <= 11, 601);
                    p!(c06, t as u32 == k.ty, 602);
                    // by name, too
                    let n = concretize(t as u64) as u32;
                    p!(c06, KeyValueDataType::n(n) == Some(t), 603);
                    let names = [KeyValueDataType::RegNone, KeyValueDataType::RegSZ, KeyValueDataType::RegExpandSZ, KeyValueDataType::RegBinary,
                        KeyValueDataType::RegDWord, KeyValueDataType::RegDWordBigEndian, KeyValueDataType::RegLink, KeyValueDataType::RegMultiSZ,
                        KeyValueDataType::RegResourceList, KeyValueDataType::RegFullResourceDescriptor,
                        KeyValueDataType::RegResourceRequirementsList, KeyValueDataType::RegQWord];
                    p!(c06, n < 12, 604);
                    if n < 12 { p!(c06, names[n as usize] == t, 605) }
                }
                Err(e) => {
                    cover(2);
                    p!(c06, k.ty > 11, 606);
                    p!(c06, matches!(e, NtHiveError::UnsupportedKeyValueDataType { actual, .. } if actual == k.ty), 607);
                    p!(c16, type_fault(&e, &k, &[]), 1671);
                }
            },
            1 => {
                let good = k.small() & (k.size == 4) & ((k.ty == 4) | (k.ty == 5));
                match v.dword_data() {
                    Ok(x) => {
                        cover(3);
                        p!(c06, good, 611);
                        let r = if k.stored { s.u32(k.c.start + 8) } else { s.u32(k.d.start) };
                        p!(c06, x == if k.ty == 4 { r } else { r.swap_bytes() }, 612);
                    }
                    Err(e) => {
                        cover(4);
                        p!(c06, !good, 613);
                        p!(c16, data_fault(&s, &e, &k) | type_fault(&e, &k, &[4, 5])
                            | size_fault(&e, BASE + k.start(), k.small() & (k.size != 4), 4, k.size)
                            | size_fault(&e, BASE + k.off as u64, k.big(), 4, k.size), 1672);
                    }
                }
            }
            _ => {
                let good = k.small() & (k.size == 8) & (k.ty == 11);
                match v.qword_data() {
                    Ok(x) => {
                        cover(5);
                        p!(c06, good, 621);
                        p!(c06, x == s.u32(k.d.start) as u64 | (s.u32(k.d.start + 4) as u64) << 32, 622);
                    }
                    Err(e) => {
                        cover(6);
                        p!(c06, !good, 623);
                        p!(c16, data_fault(&s, &e, &k) | type_fault(&e, &k, &[11])
                            | size_fault(&e, BASE + k.start(), k.small() & (k.size != 8), 8, k.size)
                            | size_fault(&e, BASE + k.off as u64, k.big(), 8, k.size), 1673);
                    }
                }
            }
        }
    }
}
