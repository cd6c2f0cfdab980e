//! builds small hives for the demonstration
#![allow(dead_code)]
pub struct Img { pub b: Vec<u8>, end: usize }
pub const NONE: u32 = u32::MAX;
impl Img {
    pub fn new(n: usize) -> Self { let mut i = Img { b: vec![0; 4096 + n], end: 0 }; i.base(n as u32); i }
    fn base(&mut self, n: u32) {
        self.b[..4].copy_from_slice(b"regf");
        self.w32(20, 1); self.w32(24, 5); self.w32(28, 0); self.w32(32, 1); self.w32(40, n / 4096 * 4096); self.w32(44, 1);
    }
    pub fn w8(&mut self, at: usize, v: u8) { self.b[at] = v }
    pub fn w16(&mut self, at: usize, v: u16) { self.b[at..at + 2].copy_from_slice(&v.to_le_bytes()) }
    pub fn w32(&mut self, at: usize, v: u32) { self.b[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
    pub fn cell(&mut self, n: usize) -> u32 {
        let o = self.end;
        let len = (n + 4 + 7) / 8 * 8;
        self.w32(4096 + o, (len as u32).wrapping_neg());
        self.end += len;
        o as u32
    }
    pub fn at(o: u32) -> usize { 4096 + o as usize + 4 }
    pub fn root(&mut self, o: u32) { self.w32(36, o) }
    pub fn key(&mut self, name: &str) -> u32 { self.key_raw(name.as_bytes(), true) }
    pub fn key_raw(&mut self, name: &[u8], latin: bool) -> u32 {
        let o = self.cell(76 + name.len());
        let p = Self::at(o);
        self.b[p..p + 2].copy_from_slice(b"nk");
        self.w16(p + 2, if latin { 0x20 } else { 0 });
        self.w32(p + 28, NONE); self.w32(p + 40, NONE); self.w32(p + 48, NONE);
        self.w16(p + 72, name.len() as u16);
        self.b[p + 76..p + 76 + name.len()].copy_from_slice(name);
        o
    }
    pub fn subkeys(&mut self, key: u32, n: u32, list: u32) { self.w32(Self::at(key) + 20, n); self.w32(Self::at(key) + 28, list) }
    pub fn values(&mut self, key: u32, n: u32, list: u32) { self.w32(Self::at(key) + 36, n); self.w32(Self::at(key) + 40, list) }
    pub fn list(&mut self, sig: &[u8; 2], items: &[u32]) -> u32 {
        let w = if sig == b"lf" || sig == b"lh" { 8 } else { 4 };
        let o = self.cell(4 + w * items.len());
        let p = Self::at(o);
        self.b[p..p + 2].copy_from_slice(sig);
        self.w16(p + 2, items.len() as u16);
        for (i, x) in items.iter().enumerate() { self.w32(p + 4 + w * i, *x) }
        o
    }
    pub fn offsets(&mut self, items: &[u32]) -> u32 {
        let o = self.cell(4 * items.len());
        for (i, x) in items.iter().enumerate() { self.w32(Self::at(o) + 4 * i, *x) }
        o
    }
    pub fn value(&mut self, name: &str, ty: u32, size: u32, data: u32) -> u32 {
        let o = self.cell(20 + name.len());
        let p = Self::at(o);
        self.b[p..p + 2].copy_from_slice(b"vk");
        self.w16(p + 2, name.len() as u16);
        self.w32(p + 4, size); self.w32(p + 8, data); self.w32(p + 12, ty); self.w16(p + 16, 1);
        self.b[p + 20..p + 20 + name.len()].copy_from_slice(name.as_bytes());
        o
    }
    pub fn bytes(&mut self, d: &[u8]) -> u32 {
        let o = self.cell(d.len());
        let p = Self::at(o);
        self.b[p..p + d.len()].copy_from_slice(d);
        o
    }
    /// big data over the given segment cells
    pub fn db(&mut self, segs: &[u32]) -> u32 {
        let l = self.offsets(segs);
        let o = self.cell(8);
        let p = Self::at(o);
        self.b[p..p + 2].copy_from_slice(b"db");
        self.w16(p + 2, segs.len() as u16);
        self.w32(p + 4, l);
        o
    }
    pub fn checksum(&mut self) {
        let mut c = 0u32;
        for i in 0..127 { c ^= u32::from_le_bytes(self.b[4 * i..4 * i + 4].try_into().unwrap()) }
        if c == 0 { c = 1 } else if c == u32::MAX { c -= 1 }
        self.w32(508, c)
    }
}
pub fn utf16(s: &[u16]) -> Vec<u8> { s.iter().flat_map(|u| u.to_le_bytes()).collect() }
