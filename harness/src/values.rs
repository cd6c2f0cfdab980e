//! value enumeration and value lookup
use crate::keys::root;
use crate::names::*;
use crate::sym::*;
use crate::upper::upper;
use nt_hive::*;

/// fault of the values list of the key in cell c
pub fn values_fault(s: &Regf, e: &NtHiveError, c: &Cell) -> bool {
    let off = s.u32(c.start + 40);
    let count = s.u32(c.start + 36) as u64;
    let l = s.cell(off);
    cell_fault(s, e, off) | field_fault(e, BASE + c.start + 36, l.ok & !l.fits(0, count * 4), count * 4, l.len())
}

/// the name of the value at `off` is unreadable / equals the text (of at most 2 units)
fn bad_name(s: &Regf, off: u32) -> bool {
    let c = s.cell(off);
    !c.fits(20, s.u16(c.start + 2) as u64)
}
pub fn name_matches(s: &Regf, start: u64, len: u64, latin: bool, t: &[u16]) -> bool {
    let n = t.len() as u64;
    let mut r = (latin & (len == n)) | (!latin & (len >> 1 == n));
    if !r { return false }
    for i in 0..t.len() {
        let o = start + i as u64;
        let u = if latin { s.u8(o) as u16 } else { s.u16(o + i as u64) };
        r &= upper(u) == upper(t[i]);
    }
    r
}

crate::harness! {
    // enumeration; case 0: the first two, case 1: nth(n) and the one after it
    vals_list {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 40);
        let count = s.u32(c.start + 36) as u64;
        let l = s.cell(off);
        let ok = l.ok & l.fits(0, count * 4);
        let mut it = match k.values() {
            None => { cover(1); p!(c13, off == NONE, 1301); return }
            Some(Err(e)) => {
                cover(2);
                p!(c13, (off != NONE) & !ok, 1302);
                p!(c02, !ok, 232);
                p!(c16, values_fault(&s, &e, &c), 1632);
                return
            }
            Some(Ok(it)) => it,
        };
        cover(3);
        short(count);
        p!(c13, (off != NONE) & ok, 1303);
        p!(c02, ok, 233);
        let n = any_u64() as usize;
        let first = case() == 0;
        let (r, n) = if first { (it.next(), 0) } else { (it.nth(n), n as u64) };
        let e = s.item4(l.start, n);
        match r {
            None => { cover(4); p!(c13, n >= count, 1304); return }
            Some(Err(x)) => {
                cover(5);
                p!(c13, (n < count) & !s.value_ok(e), 1305);
                p!(c02, !s.value_ok(e), 235);
                p!(c16, value_fault(&s, &x, e), 1635);
            }
            Some(Ok(v)) => {
                cover(6);
                p!(c13, n < count, 1306);
                p!(c13, is_val(&s, &v, e), 1307);
                p!(c02, s.value_ok(e), 236);
            }
        }
        let n = n + 1;
        let e = s.item4(l.start, n);
        match it.next() {
            None => { cover(7); p!(c13, n >= count, 1308); }
            Some(Err(_)) => { cover(8); p!(c13, (n < count) & !s.value_ok(e), 1309); }
            Some(Ok(v)) => {
                cover(9);
                p!(c13, (n < count) & s.value_ok(e), 1310);
                p!(c13, is_val(&s, &v, e), 1311);
            }
        }
    }
    // lookup by a name of case % 4 units among at most case / 4 values
    vals_find {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 40);
        let count = s.u32(c.start + 36) as u64;
        let l = s.cell(off);
        let max = case() / 4;
        assume((off != NONE) & l.ok & l.fits(0, count * 4) & (count <= max));
        let t = Text::bmp((case() % 4) as usize);
        let r = k.value(t.str());
        let mut i = 0;
        while i < max {
            if i >= count { break }
            let e = s.item4(l.start, i);
            if !s.value_ok(e) {
                cover(1);
                match r {
                    Some(Err(x)) => p!(c16, value_fault(&s, &x, e), 1640),
                    _ => { p!(c13, false, 1320); p!(c02, false, 250) }
                }
                return
            }
            let v = s.cell(e);
            let len = s.u16(v.start + 2) as u64;
            if bad_name(&s, e) {
                cover(2);
                match r {
                    Some(Err(x)) => p!(c16, field_fault(&x, BASE + v.start + 2, true, len, v.len().wrapping_sub(20)), 1641),
                    _ => { p!(c13, false, 1321); p!(c02, false, 251) }
                }
                return
            }
            if name_matches(&s, v.start + 20, len, s.u16(v.start + 16) & 1 != 0, t.units()) {
                cover(3);
                if i > 0 { cover(4) }
                match r {
                    Some(Ok(x)) => p!(c13, is_val(&s, &x, e), 1322),
                    _ => p!(c13, false, 1323),
                }
                return
            }
            i += 1;
        }
        cover(5);
        p!(c13, r.is_none(), 1324);
    }
    // lookup where the list itself is missing or unreadable
    vals_none {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 40);
        let count = s.u32(c.start + 36) as u64;
        let l = s.cell(off);
        let ok = l.ok & l.fits(0, count * 4);
        assume((off == NONE) | !ok | (count == 0));
        match k.value("x") {
            None => { cover(1); p!(c13, (off == NONE) | (ok & (count == 0)), 1330) }
            Some(Err(e)) => {
                cover(2);
                p!(c13, (off != NONE) & !ok, 1331);
                p!(c16, values_fault(&s, &e, &c), 1650);
            }
            Some(Ok(_)) => p!(c13, false, 1332),
        }
    }
}
