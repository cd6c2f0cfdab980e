//! Intrinsics of the symbolic engine and the reference model of the regf layout.
use nt_hive::*;

extern "C" {
    fn sym_u(width: u32) -> u64;
    fn sym_region(len: usize, zero: u32) -> *mut u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_out(v: u64);
    fn sym_case() -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_peek(p: *const u8, len: usize, off: usize, n: u32) -> u64;
}

pub fn any_u8() -> u8 { unsafe { sym_u(8) as u8 } }
pub fn any_u16() -> u16 { unsafe { sym_u(16) as u16 } }
pub fn any_u32() -> u32 { unsafe { sym_u(32) as u32 } }
pub fn any_u64() -> u64 { unsafe { sym_u(64) } }
pub fn any_usize() -> usize { unsafe { sym_u(usize::BITS) as usize } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// the property: must hold on every path; the id names the clause
pub fn check(c: bool, id: u32) { unsafe { sym_assert(c, id) } }
pub fn cover(id: u32) { unsafe { sym_cover(id) } }
pub fn out(v: u64) { unsafe { sym_out(v) } }
pub fn case() -> u64 { unsafe { sym_case() & 0xff } }
/// in the reduced variant of a case, lists are short
pub fn short(n: u64) { if unsafe { sym_case() } & 0x100 != 0 { assume(n <= 3) } }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn region(len: usize, zero: bool) -> &'static mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(sym_region(len, zero as u32), len) }
}
/// n little-endian bytes at off; unspecified when out of bounds (the caller masks that case out)
pub fn peek(d: &[u8], off: u64, n: u32) -> u64 { unsafe { sym_peek(d.as_ptr(), d.len(), off as usize, n) } }

pub const BASE: u64 = 4096;

/// hive bytes: arbitrary content, arbitrary length up to `max`
pub fn any_bytes(max: u64) -> &'static mut [u8] {
    let len = any_usize();
    assume(len as u64 <= max);
    region(len, false)
}
/// a hive that is at least long enough for the base block
pub fn any_hive_bytes(max: u64) -> &'static mut [u8] {
    let len = any_usize();
    assume((len as u64 >= BASE) & (len as u64 <= max));
    region(len, false)
}
pub const MAXLEN: u64 = 1 << 40;

#[macro_export]
macro_rules! harness {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] pub extern "C" fn $name() $body)*
        pub const TABLE: $crate::Table = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}

/// Reference model of the cell rules of the regf format, over the bytes that follow the base block.
/// All offsets are relative to the hive bins data (file offset minus 4096).
#[derive(Clone, Copy)]
pub struct Cell {
    pub ok: bool,
    /// cell header fits
    pub hdr: bool,
    pub size: i32,
    pub start: u64,
    pub end: u64,
}

#[derive(Clone, Copy)]
pub struct Regf<'a> {
    pub bytes: &'a [u8],
    /// length of the hive bins data
    pub dl: u64,
}

impl<'a> Regf<'a> {
    pub fn new(bytes: &'a [u8]) -> Self { Regf { bytes, dl: (bytes.len() as u64).wrapping_sub(BASE) } }
    pub fn u8(&self, off: u64) -> u8 { peek(self.bytes, BASE.wrapping_add(off), 1) as u8 }
    pub fn u16(&self, off: u64) -> u16 { peek(self.bytes, BASE.wrapping_add(off), 2) as u16 }
    pub fn u32(&self, off: u64) -> u32 { peek(self.bytes, BASE.wrapping_add(off), 4) as u32 }
    pub fn b16(&self, off: u64) -> u16 { peek(self.bytes, off, 2) as u16 }
    pub fn b32(&self, off: u64) -> u32 { peek(self.bytes, off, 4) as u32 }
    pub fn root_offset(&self) -> u32 { self.b32(36) }
    pub fn cell(&self, off: u32) -> Cell {
        let o = off as u64;
        let hdr = o + 4 <= self.dl;
        let size = self.u32(o) as i32;
        let abs = size.wrapping_neg() as u32 as u64;
        let ok = hdr & (size < 0) & (abs & 7 == 0) & (o.wrapping_add(abs) <= self.dl);
        Cell { ok, hdr, size, start: o + 4, end: o.wrapping_add(abs) }
    }
}
impl Cell {
    /// n bytes fit into the cell behind its first `skip` bytes
    pub fn fits(&self, skip: u64, n: u64) -> bool { self.start.wrapping_add(skip).wrapping_add(n) <= self.end }
    pub fn len(&self) -> u64 { self.end.wrapping_sub(self.start) }
}


/// `p!(c02, cond, id)`: the clause `id` of property C02; compiled in only when that property is being checked
#[macro_export]
macro_rules! p {
    ($p:ident, $c:expr, $id:expr) => { if $crate::sym::$p { $crate::sym::check($c, $id) } };
}
macro_rules! flags { ($($n:ident $s:literal),*) => { $(#[allow(non_upper_case_globals)] pub const $n: bool = cfg!(feature = $s);)* } }
flags!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12",
       c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20");

pub const NONE: u32 = u32::MAX;
pub const BIG: u64 = 16344;

/// subkeys list as the format defines it
#[derive(Clone, Copy)]
pub struct List {
    pub ok: bool,
    pub cell: Cell,
    pub sig: u16,
    pub ri: bool,
    pub leaf: bool,
    pub count: u64,
    pub items: u64,
    pub item_size: u64,
}
impl List {
    /// case split on the item size
    pub fn fixed(self) -> List { List { item_size: concretize(self.item_size), ..self } }
}
pub const LF: u16 = 0x666c;
pub const LH: u16 = 0x686c;
pub const LI: u16 = 0x696c;
pub const RI: u16 = 0x6972;
pub const NK: u16 = 0x6b6e;
pub const VK: u16 = 0x6b76;
pub const DB: u16 = 0x6264;

impl<'a> Regf<'a> {
    pub fn list(&self, off: u32) -> List {
        let cell = self.cell(off);
        let sig = self.u16(cell.start);
        let ri = sig == RI;
        let big = (sig == LF) | (sig == LH);
        let leaf = big | (sig == LI);
        let count = self.u16(cell.start + 2) as u64;
        let item_size = 4u64 << (big as u64);
        let ok = cell.ok & cell.fits(0, 4) & ((big & cell.fits(4, count * 8)) | (((sig == LI) | ri) & cell.fits(4, count * 4)));
        List { ok, cell, sig, ri, leaf, count, items: cell.start + 4, item_size }
    }
    pub fn key_ok(&self, off: u32) -> bool {
        let c = self.cell(off);
        c.ok & c.fits(0, 76) & (self.u16(c.start) == NK)
    }
    pub fn value_ok(&self, off: u32) -> bool {
        let c = self.cell(off);
        c.ok & c.fits(0, 20) & (self.u16(c.start) == VK)
    }
    pub fn entry(&self, l: &List, n: u64) -> u32 { self.u32(l.items.wrapping_add(n.wrapping_mul(l.item_size))) }
    pub fn item4(&self, start: u64, n: u64) -> u32 { self.u32(start.wrapping_add(n.wrapping_mul(4))) }
}

pub type H<'a> = Hive<&'a [u8]>;
pub type Key<'a> = KeyNode<'a, &'a [u8]>;
pub type Val<'a> = KeyValue<'a, &'a [u8]>;

pub fn open(b: &[u8]) -> Option<Hive<&[u8]>> {
    match Hive::without_validation(b) { Ok(h) => Some(h), Err(_) => None }
}

/// is `k` the key in the cell at offset `off`?  Decided by where its name lies; a name that does not fit is judged by that.
pub fn is_key(s: &Regf, k: &Key, off: u32) -> bool {
    let c = s.cell(off);
    match k.name() {
        Ok(n) => pos(s.bytes, name_bytes(&n).0) == BASE + c.start + 76,
        Err(_) => !c.fits(76, s.u16(c.start + 72) as u64),
    }
}
pub fn is_val(s: &Regf, v: &Val, off: u32) -> bool {
    let c = s.cell(off);
    match v.name() {
        Ok(n) => pos(s.bytes, name_bytes(&n).0) == BASE + c.start + 20,
        Err(_) => !c.fits(20, s.u16(c.start + 2) as u64),
    }
}

/// where a slice returned by nt-hive lies, relative to the start of the hive bytes
pub fn pos(bytes: &[u8], s: &[u8]) -> u64 { (s.as_ptr() as u64).wrapping_sub(bytes.as_ptr() as u64) }

pub fn name_bytes<'h>(n: &NtHiveNameString<'h>) -> (&'h [u8], bool) {
    match n {
        NtHiveNameString::Latin1(b) => (b, true),
        NtHiveNameString::Utf16LE(b) => (b, false),
    }
}

// ---- what an error says must be true (C16) ----

/// the error is a true statement about the cell header at offset `off`
pub fn cell_fault(s: &Regf, e: &NtHiveError, off: u32) -> bool {
    let o = off as u64;
    let here = BASE + o;
    let left = if o <= s.dl { s.dl.wrapping_sub(o) } else { 0 };
    let size = s.u32(o) as i32;
    let abs = size.wrapping_neg() as u32 as u64;
    match e {
        NtHiveError::InvalidHeaderSize { offset, expected, actual } =>
            (*offset as u64 == here) & (*expected == 4) & (*actual as u64 == left) & (left < 4),
        NtHiveError::UnallocatedCell { offset, size: q } => (*offset as u64 == here) & (left >= 4) & (*q == size) & (size >= 0),
        NtHiveError::InvalidSizeFieldAlignment { offset, size: q, expected_alignment } =>
            (*offset as u64 == here) & (left >= 4) & (*q as u64 == abs) & (size < 0) & (*expected_alignment == 8) & (abs & 7 != 0),
        NtHiveError::InvalidSizeField { offset, expected, actual } =>
            (*offset as u64 == here) & (left >= 4) & (size <= 0)
                & (((o.wrapping_add(abs) > s.dl) & (*expected as u64 == abs.wrapping_sub(4)) & (*actual as u64 == left.wrapping_sub(4)))
                    | ((abs < 4) & pair(*expected, *actual, 4, abs))),
        _ => false,
    }
}
pub fn pair(x: usize, y: usize, a: u64, b: u64) -> bool {
    ((x as u64 == a) & (y as u64 == b)) | ((x as u64 == b) & (y as u64 == a))
}
/// the error truly says that the cell at `off` is too small for a structure of `need` bytes
pub fn small_fault(s: &Regf, e: &NtHiveError, off: u32, need: u64) -> bool {
    let c = s.cell(off);
    match e {
        NtHiveError::InvalidHeaderSize { offset, expected, actual } =>
            c.ok & (*offset as u64 == BASE + c.start) & (*expected as u64 == need) & (*actual as u64 == c.len()) & !c.fits(0, need),
        _ => false,
    }
}
/// the error truly quotes the signature at the start of the cell at `off`, which is none of the expected ones
pub fn sig_fault(s: &Regf, e: &NtHiveError, off: u32, sigs: &[u16]) -> bool {
    let c = s.cell(off);
    match e {
        NtHiveError::InvalidTwoByteSignature { offset, actual, expected } => {
            let sig = s.u16(c.start);
            let mut fine = c.ok & (*offset as u64 == BASE + c.start) & (u16::from_le_bytes(*actual) == sig);
            for x in sigs { fine &= sig != *x; }
            // the list of expected signatures names the allowed ones, all of them and no other
            fine & (expected.len() == sigs.len() * 3 - 1) & names(expected, sigs)
        }
        _ => false,
    }
}
fn names(expected: &[u8], sigs: &[u16]) -> bool {
    let mut all = true;
    for x in sigs {
        let mut one = false;
        for i in 0..expected.len() / 3 + 1 {
            if i * 3 + 1 < expected.len() { one |= u16::from_le_bytes([expected[i * 3], expected[i * 3 + 1]]) == *x; }
        }
        all &= one;
    }
    all
}
/// the error truly says that the size field at file offset `field` breaks its rule: it asks for a, but there is only b
pub fn field_fault(e: &NtHiveError, field: u64, broken: bool, a: u64, b: u64) -> bool {
    match e {
        NtHiveError::InvalidSizeField { offset, expected, actual } =>
            broken & (*offset as u64 == field) & (*expected as u64 == a) & (*actual as u64 == b),
        _ => false,
    }
}
pub fn key_fault(s: &Regf, e: &NtHiveError, off: u32) -> bool {
    cell_fault(s, e, off) | small_fault(s, e, off, 76) | sig_fault(s, e, off, &[NK])
}
pub fn value_fault(s: &Regf, e: &NtHiveError, off: u32) -> bool {
    cell_fault(s, e, off) | small_fault(s, e, off, 20) | sig_fault(s, e, off, &[VK])
}
/// fault of a subkeys list, either any list or (of an index root entry) a leaf only
pub fn list_fault(s: &Regf, e: &NtHiveError, off: u32, leaf_only: bool) -> bool {
    let l = s.list(off);
    let sigs: &[u16] = if leaf_only { &[LF, LH, LI] } else { &[LF, LH, LI, RI] };
    cell_fault(s, e, off) | small_fault(s, e, off, 4) | sig_fault(s, e, off, sigs)
        | field_fault(e, BASE + l.cell.start + 2, l.cell.ok & !l.cell.fits(4, l.count * l.item_size), l.count * l.item_size,
                      l.cell.len().wrapping_sub(4))
        | (leaf_only & field_fault(e, BASE + l.cell.start + 2, l.cell.ok & (l.count == 0), 1, 0))
}
