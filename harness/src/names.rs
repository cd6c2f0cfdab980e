//! name comparison and conversion, on names of up to N code units with arbitrary content
use crate::sym::*;
use crate::upper::upper;
use core::cmp::Ordering;
use core::fmt::Write;
use nt_hive::*;

pub const N: usize = 4;
pub const L: usize = 3;

/// text with its UTF-16 code units and its UTF-8 encoding, worked out independently of the library
#[derive(Clone, Copy)]
pub struct Text { pub u: [u16; N], pub n: usize, pub b: [u8; 16], pub len: usize }
impl Text {
    pub fn new() -> Self { Text { u: [0; N], n: 0, b: [0; 16], len: 0 } }
    pub fn put(&mut self, c: u32) {
        let b = &mut self.b[self.len..];
        if c < 0x80 { b[0] = c as u8; self.len += 1 }
        else if c < 0x800 { b[0] = 0xc0 | (c >> 6) as u8; b[1] = 0x80 | (c & 0x3f) as u8; self.len += 2 }
        else if c < 0x10000 {
            b[0] = 0xe0 | (c >> 12) as u8; b[1] = 0x80 | (c >> 6 & 0x3f) as u8; b[2] = 0x80 | (c & 0x3f) as u8; self.len += 3
        } else {
            b[0] = 0xf0 | (c >> 18) as u8; b[1] = 0x80 | (c >> 12 & 0x3f) as u8; b[2] = 0x80 | (c >> 6 & 0x3f) as u8;
            b[3] = 0x80 | (c & 0x3f) as u8; self.len += 4
        }
    }
    /// arbitrary valid text of n characters of the planes 0, 1 and 16
    pub fn any(n: usize) -> Self {
        let mut t = Self::new();
        for _ in 0..n {
            let x = any_u16();
            let p = any_u8();
            assume((p < 2) | (p == 16));
            let p = concretize(p as u64) as u32;
            let c = (p << 16) | x as u32;
            if p == 0 {
                assume((x < 0xd800) | (x >= 0xe000));
                t.u[t.n] = x;
                t.n += 1
            } else {
                t.u[t.n] = 0xd800 + ((c - 0x10000) >> 10) as u16;
                t.u[t.n + 1] = 0xdc00 + ((c - 0x10000) & 0x3ff) as u16;
                t.n += 2
            }
            t.put(c);
        }
        t
    }
    /// arbitrary text of n characters of the Basic Multilingual Plane, not NUL
    pub fn bmp(n: usize) -> Self {
        let mut t = Self::new();
        for _ in 0..n {
            let x = any_u16();
            assume((x != 0) & ((x < 0xd800) | (x >= 0xe000)));
            t.u[t.n] = x;
            t.n += 1;
            t.put(x as u32);
        }
        t
    }
    pub fn units(&self) -> &[u16] { &self.u[..self.n] }
    pub fn str(&self) -> &str { unsafe { core::str::from_utf8_unchecked(&self.b[..self.len]) } }
}

/// order of the code units after uppercasing, a proper prefix being smaller: -1, 0 or 1
pub fn order(a: &[u16], b: &[u16]) -> i32 {
    let mut r = if a.len() < b.len() { -1 } else if a.len() > b.len() { 1 } else { 0 };
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in (0..n).rev() {
        let (x, y) = (upper(a[i]), upper(b[i]));
        r = if x < y { -1 } else if x > y { 1 } else { r };
    }
    r
}

pub struct Raw { pub b: [u8; 8], pub len: usize, pub latin: bool, pub u: [u16; N], pub n: usize }
impl Raw {
    /// arbitrary stored name of up to `max` code units (UTF-16LE: possibly followed by half a unit)
    pub fn any(latin: bool, max: usize) -> Self {
        let mut r = Raw { b: [0; 8], len: 0, latin, u: [0; N], n: 0 };
        let len = any_u8() as usize;
        // half a unit at the end: of names of 0 or 1 units only
        assume(if latin { len <= max } else { (len <= 2 * max) & ((len & 1 == 0) | (len < 4)) });
        let len = concretize(len as u64) as usize;
        for i in 0..len { r.b[i] = any_u8() }
        r.len = len;
        r.n = if latin { len } else { len / 2 };
        for i in 0..r.n { r.u[i] = if latin { r.b[i] as u16 } else { r.b[2 * i] as u16 | (r.b[2 * i + 1] as u16) << 8 } }
        r
    }
    pub fn name(&self) -> NtHiveNameString<'_> {
        if self.latin { NtHiveNameString::Latin1(&self.b[..self.len]) } else { NtHiveNameString::Utf16LE(&self.b[..self.len]) }
    }
    pub fn units(&self) -> &[u16] { &self.u[..self.n] }
}

fn num(o: Option<Ordering>) -> i32 { match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 9 } }

/// decodes UTF-16: text with U+FFFD for unpaired surrogates, and whether there was none
pub fn decode(u: &[u16]) -> (Text, bool) {
    let mut t = Text::new();
    let mut clean = true;
    let mut i = 0;
    while i < u.len() {
        let x = u[i];
        i += 1;
        if x >= 0xd800 && x < 0xdc00 && i < u.len() && u[i] >= 0xdc00 && u[i] < 0xe000 {
            t.put(0x10000 + ((x as u32 - 0xd800) << 10) + (u[i] as u32 - 0xdc00));
            i += 1;
        } else if x >= 0xd800 && x < 0xe000 { clean = false; t.put(0xfffd) }
        else { t.put(x as u32) }
    }
    (t, clean)
}

struct Sink { b: [u8; 32], n: usize }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for x in s.bytes() { if self.n < 32 { self.b[self.n] = x } self.n += 1 }
        Ok(())
    }
}

pub fn same(x: &[u8], t: &Text) -> bool {
    let mut r = x.len() == t.len;
    if r { for i in 0..t.len { r &= x[i] == t.b[i] } }
    r
}

crate::harness! {
    // stored name against stored name; case: bit 0, 1: the left, right one is UTF-16LE
    names_cmp {
        let k = case();
        let max = if k & 4 == 0 { 2 } else { 3 };
        let a = Raw::any(k & 1 == 0, max);
        let b = Raw::any(k & 2 == 0, max);
        let w = order(a.units(), b.units());
        let (x, y) = (a.name(), b.name());
        if w == 0 { cover(1) } else if w < 0 { cover(2) } else { cover(3) }
        p!(c09, num(Some(x.cmp(&y))) == w, 901);
        p!(c09, (x == y) == (w == 0), 902);
        p!(c09, (x != y) == (w != 0), 903);
        p!(c09, num(x.partial_cmp(&y)) == w, 904);
        p!(c09, ((x < y) == (w < 0)) & ((x <= y) == (w <= 0)) & ((x > y) == (w > 0)) & ((x >= y) == (w >= 0)), 905);
    }
    // stored name against text, both operand orders; case bit 0: UTF-16LE
    names_str {
        let k = case();
        let a = Raw::any(k & 1 == 0, 2);
        let n = any_u8() as usize;
        assume(n <= if k & 2 == 0 { 1 } else { 2 });
        let t = Text::any(concretize(n as u64) as usize);
        let w = order(a.units(), &t.u[..t.n]);
        let (x, y) = (a.name(), t.str());
        if w == 0 { cover(1) } else if w < 0 { cover(2) } else { cover(3) }
        p!(c09, (x == *y) == (w == 0), 911);
        p!(c09, (*y == x) == (w == 0), 912);
        p!(c09, (x == y) == (w == 0), 913);
        p!(c09, (y == x) == (w == 0), 914);
        p!(c09, num(x.partial_cmp(y)) == w, 915);
        p!(c09, num(y.partial_cmp(&x)) == -w, 916);
        p!(c09, num(PartialOrd::<&str>::partial_cmp(&x, &y)) == w, 917);
        p!(c09, num(PartialOrd::<NtHiveNameString>::partial_cmp(&y, &x)) == -w, 918);
    }
    // conversions; case bit 0: UTF-16LE
    names_text {
        let a = Raw::any(case() & 1 == 0, L);
        let x = a.name();
        let (t, clean) = decode(a.units());
        if clean { cover(1) } else { cover(2) }
        p!(c10, x.len() == a.len, 1001);
        p!(c10, x.is_empty() == (a.len == 0), 1002);
        match x.to_string_checked() {
            Some(s) => { p!(c10, clean, 1003); p!(c10, same(s.as_bytes(), &t), 1004); }
            None => p!(c10, !clean, 1005),
        }
        p!(c10, same(x.to_string_lossy().as_bytes(), &t), 1006);
        let mut o = Sink { b: [0; 32], n: 0 };
        let r = write!(o, "{}", x);
        p!(c10, r.is_ok() & (o.n <= 32), 1007);
        if o.n <= 32 { p!(c10, same(&o.b[..o.n], &t), 1008) }
    }
}
