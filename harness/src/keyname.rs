//! names of keys and values, class names
use crate::keys::root;
use crate::sym::*;
use nt_hive::*;

crate::harness! {
    name_key {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let len = s.u16(c.start + 72) as u64;
        let latin = s.u16(c.start + 2) & 0x20 != 0;
        match k.name() {
            Ok(n) => {
                cover(1);
                let (x, l) = name_bytes(&n);
                if l { cover(2) }
                p!(c18, c.fits(76, len), 1801);
                p!(c02, c.fits(76, len), 261);
                p!(c18, (x.len() as u64 == len) & (pos(b, x) == BASE + c.start + 76), 1802);
                p!(c18, l == latin, 1803);
                p!(c10, n.len() as u64 == len, 1050);
                p!(c10, n.is_empty() == (len == 0), 1051);
            }
            Err(e) => {
                cover(3);
                p!(c18, !c.fits(76, len), 1804);
                p!(c16, field_fault(&e, BASE + c.start + 72, true, len, c.len().wrapping_sub(76)), 1660);
            }
        }
    }
    name_class {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 48);
        let len = s.u16(c.start + 74) as u64;
        let q = s.cell(off);
        match k.class_name() {
            None => { cover(1); p!(c18, off == NONE, 1811) }
            Some(Ok(n)) => {
                cover(2);
                let (x, l) = name_bytes(&n);
                p!(c18, (off != NONE) & q.ok & q.fits(0, len), 1812);
                p!(c02, q.ok & q.fits(0, len), 262);
                p!(c18, (x.len() as u64 == len) & (pos(b, x) == BASE + q.start) & !l, 1813);
            }
            Some(Err(e)) => {
                cover(3);
                p!(c18, (off != NONE) & !(q.ok & q.fits(0, len)), 1814);
                p!(c02, !(q.ok & q.fits(0, len)), 263);
                p!(c16, cell_fault(&s, &e, off) | field_fault(&e, BASE + c.start + 74, q.ok & !q.fits(0, len), len, q.len()), 1661);
            }
        }
    }
    name_value {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let l = s.cell(s.u32(c.start + 40));
        let Some(Ok(mut it)) = k.values() else { return };
        let Some(Ok(v)) = it.next() else { return };
        let c = s.cell(s.u32(l.start));
        let len = s.u16(c.start + 2) as u64;
        let latin = s.u16(c.start + 16) & 1 != 0;
        match v.name() {
            Ok(n) => {
                cover(1);
                let (x, l) = name_bytes(&n);
                if l { cover(2) }
                p!(c18, c.fits(20, len), 1821);
                p!(c02, c.fits(20, len), 264);
                p!(c18, (x.len() as u64 == len) & (pos(b, x) == BASE + c.start + 20), 1822);
                p!(c18, l == latin, 1823);
            }
            Err(e) => {
                cover(3);
                p!(c18, !c.fits(20, len), 1824);
                p!(c16, field_fault(&e, BASE + c.start + 2, true, len, c.len().wrapping_sub(20)), 1662);
            }
        }
    }
    // names of subkeys are read the same way
    name_sub {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let l = s.list(s.u32(c.start + 28));
        let Some(Ok(mut it)) = k.subkeys() else { return };
        if !l.leaf { return }
        let Some(Ok(k)) = it.next() else { return };
        let c = s.cell(s.entry(&l, 0));
        let len = s.u16(c.start + 72) as u64;
        let latin = s.u16(c.start + 2) & 0x20 != 0;
        match k.name() {
            Ok(n) => {
                cover(1);
                let (x, l) = name_bytes(&n);
                p!(c18, c.fits(76, len), 1831);
                p!(c18, (x.len() as u64 == len) & (pos(b, x) == BASE + c.start + 76) & (l == latin), 1832);
            }
            Err(_) => { cover(2); p!(c18, !c.fits(76, len), 1833) }
        }
    }
}
