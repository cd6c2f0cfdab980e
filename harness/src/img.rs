//! hive images with a concrete layout and (partly) symbolic content
use crate::sym::*;

pub struct Img { pub b: Vec<u8>, end: usize }
impl Img {
    /// room for `n` bytes of cells
    pub fn new(n: usize) -> Self { Img { b: vec![0; 4096 + n], end: 0 } }
    pub fn w8(&mut self, at: usize, v: u8) { self.b[at] = v }
    pub fn w16(&mut self, at: usize, v: u16) { self.b[at..at + 2].copy_from_slice(&v.to_le_bytes()) }
    pub fn w32(&mut self, at: usize, v: u32) { self.b[at..at + 4].copy_from_slice(&v.to_le_bytes()) }
    /// a new allocated cell for n bytes: its offset, as lists refer to it
    pub fn cell(&mut self, n: usize) -> u32 {
        let o = self.end;
        let len = (n + 4 + 7) / 8 * 8;
        self.w32(4096 + o, (len as u32).wrapping_neg());
        self.end += len;
        assert!(4096 + self.end <= self.b.len());
        o as u32
    }
    /// file position of the content of a cell
    pub fn at(o: u32) -> usize { 4096 + o as usize + 4 }
    pub fn root(&mut self, o: u32) { self.w32(36, o) }
    /// key cell without lists; its name has n bytes, to be stored behind the header
    pub fn key(&mut self, n: usize, latin: bool) -> u32 {
        let o = self.cell(76 + n);
        let p = Self::at(o);
        self.w16(p, NK);
        self.w16(p + 2, if latin { 0x20 } else { 0 });
        self.w32(p + 28, NONE);
        self.w32(p + 40, NONE);
        self.w32(p + 48, NONE);
        self.w16(p + 72, n as u16);
        o
    }
    pub fn subkeys(&mut self, key: u32, n: u32, list: u32) {
        self.w32(Self::at(key) + 20, n);
        self.w32(Self::at(key) + 28, list)
    }
    pub fn values(&mut self, key: u32, n: u32, list: u32) {
        self.w32(Self::at(key) + 36, n);
        self.w32(Self::at(key) + 40, list)
    }
    /// subkeys list of any kind
    pub fn list(&mut self, sig: u16, items: &[u32]) -> u32 {
        let w = if sig == LF || sig == LH { 8 } else { 4 };
        let o = self.cell(4 + w * items.len());
        let p = Self::at(o);
        self.w16(p, sig);
        self.w16(p + 2, items.len() as u16);
        for (i, x) in items.iter().enumerate() { self.w32(p + 4 + w * i, *x) }
        o
    }
    pub fn offsets(&mut self, items: &[u32]) -> u32 {
        let o = self.cell(4 * items.len());
        for (i, x) in items.iter().enumerate() { self.w32(Self::at(o) + 4 * i, *x) }
        o
    }
    pub fn value(&mut self, size: u32, data: u32, ty: u32) -> u32 {
        let o = self.cell(20);
        let p = Self::at(o);
        self.w16(p, VK);
        self.w32(p + 4, size);
        self.w32(p + 8, data);
        self.w32(p + 12, ty);
        o
    }
}
