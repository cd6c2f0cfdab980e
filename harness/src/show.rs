//! the example program, on hives of concrete layout with arbitrary names, types, sizes and data
//! (check.py puts /repo/examples/readhive.rs here as the module `readhive`, with `std::` replaced by `crate::show::std::`)
use crate::img::Img;
use crate::names::Text;
use crate::sym::*;

pub struct Page { b: [u8; 4096], n: usize }
static mut PAGE: Page = Page { b: [0; 4096], n: 0 };
static mut FILE: Vec<u8> = Vec::new();
fn page() -> &'static mut Page { unsafe { &mut *(&raw mut PAGE) } }

/// everything that the example uses of std, but for the arguments, the file and the output
pub mod std {
    pub use ::std::*;
    pub mod env {
        pub use ::std::env::*;
        pub fn args() -> ::std::vec::IntoIter<String> { vec![String::from("readhive"), String::from("hive")].into_iter() }
    }
    pub mod fs {
        pub use ::std::fs::*;
        pub struct File(usize);
        impl File {
            pub fn open<P: AsRef<::std::path::Path>>(_: P) -> ::std::io::Result<File> { Ok(File(0)) }
        }
        impl ::std::io::Read for File {
            fn read(&mut self, b: &mut [u8]) -> ::std::io::Result<usize> {
                let f = super::super::file();
                let n = if f.len() - self.0 < b.len() { f.len() - self.0 } else { b.len() };
                b[..n].copy_from_slice(&f[self.0..self.0 + n]);
                self.0 += n;
                Ok(n)
            }
            fn read_to_end(&mut self, b: &mut Vec<u8>) -> ::std::io::Result<usize> {
                let f = &super::super::file()[self.0..];
                b.extend_from_slice(f);
                self.0 += f.len();
                Ok(f.len())
            }
        }
        pub fn read<P: AsRef<::std::path::Path>>(_: P) -> ::std::io::Result<Vec<u8>> { Ok(super::super::file().to_vec()) }
    }
    pub mod io {
        pub use ::std::io::*;
        #[derive(Default)]
        pub struct Stdout;
        pub type StdoutLock<'a> = Stdout;
        pub fn stdout() -> Stdout { Stdout }
        impl Stdout { pub fn lock(&self) -> Stdout { Stdout } }
        impl Write for Stdout {
            fn write(&mut self, b: &[u8]) -> Result<usize> { super::super::page().put(b); Ok(b.len()) }
            fn write_all(&mut self, b: &[u8]) -> Result<()> { super::super::page().put(b); Ok(()) }
            fn flush(&mut self) -> Result<()> { Ok(()) }
        }
    }
}
pub fn file() -> &'static [u8] { unsafe { &*(&raw const FILE) } }
impl Page {
    fn put(&mut self, s: &[u8]) {
        for x in s { if self.n < self.b.len() { self.b[self.n] = *x } self.n += 1 }
    }
}
impl core::fmt::Write for Page {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { self.put(s.as_bytes()); Ok(()) }
}
pub fn show(a: core::fmt::Arguments) { let _ = core::fmt::Write::write_fmt(page(), a); }
macro_rules! print { ($($t:tt)*) => { $crate::show::show(format_args!($($t)*)) } }
macro_rules! println {
    () => { $crate::show::show(format_args!("\n")) };
    ($($t:tt)*) => {{ $crate::show::show(format_args!($($t)*)); $crate::show::show(format_args!("\n")) }};
}
pub trait Done { fn done(self) -> bool; }
impl Done for () { fn done(self) -> bool { true } }
impl<E> Done for Result<(), E> { fn done(self) -> bool { self.is_ok() } }

#[path = "readhive.rs"]
#[allow(dead_code, unused)]
mod readhive;

/// a hive and what is to be printed for it
struct Doc { m: Img, want: Vec<u8> }
impl Doc {
    fn new() -> Self {
        let mut m = Img::new(4096);
        m.b[..4].copy_from_slice(b"regf");
        m.w32(20, 1);
        m.w32(24, 5);
        m.w32(32, 1);
        m.w32(40, 4096);
        m.w32(44, 1);
        Doc { m, want: Vec::new() }
    }
    fn seal(&mut self) {
        let mut x = 0;
        for i in 0..127 { x ^= u32::from_le_bytes([self.m.b[4 * i], self.m.b[4 * i + 1], self.m.b[4 * i + 2], self.m.b[4 * i + 3]]) }
        self.m.w32(508, x)
    }
    fn say(&mut self, s: &str) { self.want.extend_from_slice(s.as_bytes()) }
    fn put(&mut self, t: &Text) { self.want.extend_from_slice(&t.b[..t.len]) }
    fn line(&mut self) { self.want.push(b'\n') }
    fn indent(&mut self, level: usize) { for _ in 0..level { self.say("  ") } }
    /// a key named by one letter and an arbitrary Latin-1 character, or by two given ones
    fn key(&mut self, letter: u8) -> (u32, Text) { let x = any_u8(); self.named(letter, x) }
    fn named(&mut self, letter: u8, x: u8) -> (u32, Text) {
        let k = self.m.key(2, true);
        self.m.w8(Img::at(k) + 76, letter);
        self.m.w8(Img::at(k) + 77, x);
        let mut t = Text::new();
        t.put(letter as u32);
        t.put(x as u32);
        (k, t)
    }
    fn number(&mut self, mut x: u64) {
        let mut d = [0; 20];
        let mut n = 0;
        loop { d[n] = b'0' + (x % 10) as u8; x /= 10; n += 1; if x == 0 { break } }
        for i in 0..n { self.want.push(d[n - 1 - i]) }
    }
    fn head(&mut self, level: usize, t: &Text) { self.indent(level); self.say("\u{25cf} "); self.put(t); self.line() }
}

crate::harness! {
    // a tree: root -> { a -> { b, c -> { d } }, e (index root over two leaves -> f, g, h) }; most names have an arbitrary character, a's are both arbitrary
    show_tree {
        let mut d = Doc::new();
        let r = d.key(b'r');
        let (x, y) = (any_u8(), any_u8());
        let mut k = vec![d.named(x, y)];
        for (i, x) in [b'b', b'c', b'd', b'e', b'f', b'g', b'h'].iter().enumerate() {
            let y = if i & 1 == 0 { any_u8() } else { b'!' };
            k.push(d.named(*x, y))
        }
        let link = |d: &mut Doc, up: u32, sig: u16, at: &[u32]| { let l = d.m.list(sig, at); d.m.subkeys(up, at.len() as u32, l) };
        link(&mut d, k[2].0, LI, &[k[3].0]);
        link(&mut d, k[0].0, LF, &[k[1].0, k[2].0]);
        let l = [d.m.list(LH, &[k[5].0, k[6].0]), d.m.list(LI, &[k[7].0])];
        link(&mut d, k[4].0, RI, &l);
        link(&mut d, r.0, LH, &[k[0].0, k[4].0]);
        d.m.root(r.0);
        // one of them has a class name of one unit
        let c = d.m.cell(2);
        let x = any_u8();
        d.m.w16(Img::at(c), 0x100 | x as u16);
        d.m.w32(Img::at(k[3].0) + 48, c);
        d.m.w16(Img::at(k[3].0) + 74, 2);
        d.put(&r.1);
        d.line();
        for (i, level) in [(0, 0), (1, 1), (2, 1), (3, 2), (4, 0), (5, 1), (6, 1), (7, 1)] {
            d.head(level, &k[i].1);
            if i == 3 {
                d.indent(2);
                d.say("  Class Name: ");
                let mut t = Text::new();
                t.put(0x100 | x as u32);
                d.put(&t);
                d.line();
            }
        }
        judge(d);
    }
    // root -> a -> b; some values of a or b by kind
    show_values {
        let mut d = Doc::new();
        let kind = case() & 15;
        let deep = case() >= 16;
        let (r, a) = (d.key(b'r'), d.key(b'a'));
        let b = d.key(b'b');
        let l = d.m.list(LH, &[b.0]);
        d.m.subkeys(a.0, 1, l);
        let l = d.m.list(LI, &[a.0]);
        d.m.subkeys(r.0, 1, l);
        d.m.root(r.0);
        d.put(&r.1);
        d.line();
        d.head(0, &a.1);
        if deep { d.head(1, &b.1) }
        let level = deep as usize;
        let mut at = Vec::new();
        match kind {
            // numbers
            0 => {
                let x = any_u8() as u32;
                at.push(d.value(level, true, 0x8000_0004, x, 4));
                d.number(x as u64);
                d.line();
                let y = any_u8() as u32 + 0x1234_5600;
                at.push(d.value(level, true, 0x8000_0004, y.swap_bytes(), 5));
                d.number(y as u64);
                d.line();
            }
            1 => {
                let x = any_u8() as u64 + 0x1234_5678_9abc_de00;
                let c = d.data(&x.to_le_bytes());
                at.push(d.value(level, false, 8, c, 11));
                d.number(x);
                d.line();
            }
            // strings
            2 | 3 => {
                let x = any_u16();
                let y = any_u8() as u16;
                assume((x < 0xd800) | (x >= 0xe000));
                let c = d.data(&[x as u8, (x >> 8) as u8, y as u8, 0]);
                at.push(d.value(level, kind == 2, 4, c, kind as u32 - 1));
                if x != 0 {
                    let mut t = Text::new();
                    t.put(x as u32);
                    if y != 0 { t.put(y as u32) }
                    d.put(&t);
                }
                d.line();
            }
            // bytes, of any number up to four
            4 => {
                let n = any_u8() as u32;
                assume(n <= 4);
                let n = concretize(n as u64) as u32;
                let x = any_u8();
                at.push(d.value(level, true, 0x8000_0000 | n, 0x0302_0100 | x as u32, 3));
                d.say("[");
                for i in 0..n { if i > 0 { d.say(", ") } d.number(if i == 0 { x as u64 } else { i as u64 }) }
                d.say("]");
                d.line();
            }
            // types whose contents are not shown
            5 => {
                let ty = any_u8() as u32;
                assume((ty == 0) | (ty == 6) | (ty >= 8) & (ty <= 10));
                let ty = concretize(ty as u64) as u32;
                at.push(d.value(level, true, 0x8000_0002, 0, ty));
                d.line();
            }
            // lists of strings
            6 => {
                let (x, y) = (d.printable(), d.printable());
                let end = any_u8() & 1;
                let c = d.data(&[x, 0, 0, 0, b'q', 0, y, 0, 0, 0, 0, 0]);
                at.push(d.value(level, true, if end == 0 { 12 } else { 8 }, c, 7));
                d.say("[\"");
                for x in [x, 0, b'q', y] {
                    if x == 0 { d.say("\", \""); continue }
                    if x == b'"' || x == b'\\' { d.say("\\") }
                    d.want.push(x);
                }
                d.say("\"]");
                d.line();
            }
            // several values, and none
            _ => {
                for i in 0..3 {
                    at.push(d.value(level, i != 1, 0x8000_0004, 7 + i, 4));
                    d.number(7 + i as u64);
                    d.line();
                }
            }
        }
        let l = d.m.offsets(&at);
        d.m.values(if deep { b.0 } else { a.0 }, at.len() as u32, l);
        if !deep { d.head(1, &b.1) }
        judge(d);
    }
}
const TYPES: [&str; 12] = ["RegNone", "RegSZ", "RegExpandSZ", "RegBinary", "RegDWord", "RegDWordBigEndian", "RegLink", "RegMultiSZ",
    "RegResourceList", "RegFullResourceDescriptor", "RegResourceRequirementsList", "RegQWord"];
impl Doc {
    /// a value named by one letter and an arbitrary Latin-1 character, or without a name; what comes before its contents is written
    fn value(&mut self, level: usize, named: bool, size: u32, data: u32, ty: u32) -> u32 {
        let o = self.m.cell(22);
        let p = Img::at(o);
        let x = any_u8();
        self.m.w16(p, VK);
        self.m.w16(p + 2, if named { 2 } else { 0 });
        self.m.w32(p + 4, size);
        self.m.w32(p + 8, data);
        self.m.w32(p + 12, ty);
        self.m.w16(p + 16, 1);
        self.m.w8(p + 20, b'v');
        self.m.w8(p + 21, x);
        self.indent(level);
        self.say("  \u{25cb} ");
        if named { let mut t = Text::new(); t.put(b'v' as u32); t.put(x as u32); self.put(&t) } else { self.say("(Default)") }
        self.say(" - ");
        self.say(TYPES[ty as usize]);
        self.say(" - ");
        self.number((size & 0x7fff_ffff) as u64);
        self.line();
        self.indent(level);
        self.say("    ");
        o
    }
    /// a cell with this many bytes
    fn data(&mut self, b: &[u8]) -> u32 {
        let o = self.m.cell(b.len());
        for (i, x) in b.iter().enumerate() { self.m.w8(Img::at(o) + i, *x) }
        o
    }
    /// a unit that is printable, and how it looks within a quoted string
    fn printable(&mut self) -> u8 { let x = any_u8(); assume((x >= 0x20) & (x < 0x7f)); x }
}
fn judge(mut d: Doc) {
    d.seal();
    unsafe { *(&raw mut FILE) = d.m.b.clone() }
    page().n = 0;
    let ok = readhive::run();
    cover(1);
    check(ok, 2001);
    let p = page();
    check(p.n == d.want.len(), 2002);
    for i in 0..d.want.len() { if i < p.n && i < 4096 { check(p.b[i] == d.want[i], 2003) } }
}
