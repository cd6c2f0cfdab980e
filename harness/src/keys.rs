//! subkey enumeration over arbitrary hive bytes
use crate::sym::*;
use nt_hive::*;

/// what an index root promises next: state of the reference walk over a subkeys list
#[derive(Clone, Copy)]
pub struct Walk { pub l: List, pub i: u64, pub cur: Option<List>, pub j: u64 }
pub enum Want { End, Key(u32), Bad(u32), BadList(u32) }
impl Walk {
    pub fn new(l: List) -> Self { Walk { l, i: 0, cur: None, j: 0 } }
    pub fn next(&mut self, s: &Regf) -> Want {
        loop {
            if let Some(c) = &self.cur {
                if self.j < c.count {
                    let e = s.entry(c, self.j);
                    self.j += 1;
                    return if s.key_ok(e) { Want::Key(e) } else { Want::Bad(e) };
                }
            }
            if self.i >= self.l.count { return Want::End }
            let o = s.item4(self.l.items, self.i);
            self.i += 1;
            let c = s.list(o);
            if !(c.ok & c.leaf & (c.count > 0)) { return Want::BadList(o) }
            self.cur = Some(c.fixed());
            self.j = 0;
        }
    }
}

pub fn root<'a>(s: &Regf, h: &'a H<'a>) -> Option<(Key<'a>, Cell)> {
    match h.root_key_node() { Ok(k) => Some((k, s.cell(s.root_offset()))), Err(_) => None }
}

crate::harness! {
    keys_list {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 28);
        let l = s.list(off);
        let it = match k.subkeys() {
            None => { cover(1); p!(c12, off == NONE, 1201); return }
            Some(Err(e)) => {
                cover(2);
                p!(c12, (off != NONE) & !l.ok, 1202);
                p!(c02, !l.ok, 202);
                p!(c16, list_fault(&s, &e, off, false), 1602);
                return
            }
            Some(Ok(it)) => it,
        };
        p!(c12, (off != NONE) & l.ok, 1203);
        p!(c02, l.ok, 203);
        match &it {
            SubKeyNodes::Leaf(_) => p!(c12, l.leaf, 1204),
            SubKeyNodes::IndexRoot(_) => { cover(3); p!(c12, l.ri, 1205); return }
        }
        short(l.count);
        let l = l.fixed();
        let mut it = it;
        let n = any_u64() as usize;
        let first = case() == 0;
        let (r, n) = if first { (it.next(), 0) } else { (it.nth(n), n as u64) };
        let e = s.entry(&l, n);
        match r {
            None => { cover(4); p!(c12, n >= l.count, 1206); return }
            Some(Err(x)) => {
                cover(5);
                p!(c12, (n < l.count) & !s.key_ok(e), 1207);
                p!(c02, !s.key_ok(e), 207);
                p!(c16, key_fault(&s, &x, e), 1607);
            }
            Some(Ok(k)) => {
                cover(6);
                p!(c12, n < l.count, 1208);
                p!(c12, is_key(&s, &k, e), 1209);
                p!(c02, s.key_ok(e), 208);
            }
        }
        // and the one after it
        let n = n + 1;
        let e = s.entry(&l, n);
        match it.next() {
            None => { cover(7); p!(c12, n >= l.count, 1210); }
            Some(Err(_)) => { cover(8); p!(c12, (n < l.count) & !s.key_ok(e), 1211); }
            Some(Ok(k)) => {
                cover(9);
                p!(c12, (n < l.count) & s.key_ok(e), 1212);
                p!(c12, is_key(&s, &k, e), 1213);
            }
        }
    }
    keys_ri {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 28);
        let l = s.list(off);
        assume((off != NONE) & l.ok & l.ri);
        let l = l.fixed();
        let Some(Ok(mut it)) = k.subkeys() else { p!(c12, false, 1220); return };
        let mut w = Walk::new(l);
        let steps = case();
        for step in 0..steps {
            // after an error the walk goes on only for entries that lie outside of the hive: what the iterator does next does not
            // depend on which error it was
            let last = step + 1 == steps;
            let r = it.next();
            match w.next(&s) {
                Want::End => { cover(1); p!(c12, r.is_none(), 1221); return }
                Want::Key(o) => {
                    cover(2);
                    if w.i > 1 { cover(3) }
                    match r { Some(Ok(k)) => p!(c12, is_key(&s, &k, o), 1222), _ => p!(c12, false, 1223) }
                }
                Want::Bad(o) => {
                    cover(4);
                    match r {
                        Some(Err(e)) => p!(c16, key_fault(&s, &e, o), 1624),
                        _ => { p!(c12, false, 1224); p!(c02, false, 224) }
                    }
                    if !last { assume(!s.cell(o).hdr) }
                }
                Want::BadList(o) => {
                    cover(5);
                    match r {
                        Some(Err(e)) => p!(c16, list_fault(&s, &e, o, true), 1625),
                        _ => { p!(c12, false, 1225); p!(c02, false, 225) }
                    }
                    if !last { assume(!s.cell(o).hdr) }
                }
            }
        }
    }
}
