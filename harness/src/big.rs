//! big data
use crate::data::*;
use crate::sym::*;
use nt_hive::*;

pub fn exists(k: &Vk, n: u64) -> bool { (n < 1 << 17) & (n.wrapping_mul(BIG) < k.size) }
/// item n, which exists: entry, bytes
pub fn item(s: &Regf, k: &Vk, d: &Db, n: u64) -> (u32, u64) {
    let left = k.size.wrapping_sub(n.wrapping_mul(BIG));
    (s.item4(d.l.start, n), if left < BIG { left } else { BIG })
}
fn seg_fault(s: &Regf, e: &NtHiveError, off: u32, want: u64) -> bool {
    let c = s.cell(off);
    cell_fault(s, e, off) | match e {
        NtHiveError::InvalidDataSize { offset, expected, actual } =>
            c.ok & !c.fits(0, want) & (*offset as u64 == BASE + c.start) & (*expected as u64 == want) & (*actual as u64 == c.len()),
        _ => false,
    }
}
fn judge(b: &[u8], s: &Regf, k: &Vk, d: &Db, n: u64, r: &Option<Result<&[u8]>>) {
    let there = exists(k, n);
    if r.is_none() { cover(1); p!(c05, !there, 501); return }
    p!(c05, there, 502);
    if !there { return }
    let (e, want) = item(s, k, d, n);
    let c = s.cell(e);
    match r {
        None => (),
        Some(Err(x)) => {
            cover(2);
            p!(c05, !(c.ok & c.fits(0, want)), 503);
            p!(c02, !(c.ok & c.fits(0, want)), 270);
            p!(c16, seg_fault(s, x, e, want), 1680);
        }
        Some(Ok(x)) => {
            cover(3);
            p!(c05, c.ok & c.fits(0, want), 505);
            p!(c02, c.ok & c.fits(0, want), 271);
            p!(c05, x.len() as u64 == want, 506);
            p!(c05, pos(b, x) == BASE + c.start, 507);
            if want < BIG { cover(4) }
        }
    }
}

crate::harness! {
    big_open {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume(k.big());
        let d = Db::at(&s, &k);
        match v.data() {
            Ok(KeyValueData::Big(_)) => { cover(1); p!(c05, d.ok(&k), 510); p!(c02, d.h.ok & d.h.fits(0, 8) & d.l.ok & d.l.fits(0, d.count * 4), 272) }
            Ok(KeyValueData::Small(_)) => p!(c05, false, 511),
            Err(e) => { cover(2); p!(c05, !d.ok(&k), 512); p!(c02, !d.ok(&k), 273); p!(c16, data_fault(&s, &e, &k), 1681) }
        }
    }
    // case 0: the first items; case 1: nth(n) and the one after it
    big_items {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume(k.big());
        short((k.size - 1) / BIG);
        let d = Db::at(&s, &k);
        short(d.count);
        let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
        let n = any_u64();
        let (r, n) = if case() == 0 { (it.next(), 0) } else { (it.nth(n as usize), n) };
        judge(b, &s, &k, &d, n, &r);
        match r {
            None => return,
            Some(Err(_)) => assume(!s.cell(item(&s, &k, &d, n).0).hdr),
            _ => (),
        }
        cover(5);
        judge(b, &s, &k, &d, n + 1, &it.next());
    }
    // the number of items
    big_count {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume(k.big());
        short((k.size - 1) / BIG);
        let Ok(KeyValueData::Big(it)) = v.data() else { return };
        cover(1);
        let n = it.len() as u64;
        p!(c05, (n < 1 << 17) & (n > 0), 520);
        p!(c05, k.size <= n * BIG, 521);
        p!(c05, (n - 1) * BIG < k.size, 522);
        p!(c05, it.size_hint() == (n as usize, Some(n as usize)), 523);
        p!(c05, it.count() as u64 == n, 524);
    }
    // collected data of 16345, 32688, 32689 bytes
    big_vec {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        let n = [16345u64, 32688, 32689][case() as usize];
        assume(!k.stored & (k.size == n));
        let d = Db::at(&s, &k);
        let Ok(big) = v.data() else { return };
        // the segments do not overlap
        let (a, z) = (item(&s, &k, &d, 0), item(&s, &k, &d, 1));
        let (a, z) = (s.cell(a.0), s.cell(z.0));
        assume((a.start > z.end) | (z.start > a.end) | !a.ok | !z.ok);
        let good = a.ok & a.fits(0, BIG) & z.ok & z.fits(0, if n > 2 * BIG { BIG } else { n - BIG });
        match big.into_vec() {
            Err(_) => { cover(1); if n <= 2 * BIG { p!(c05, !good, 530) } }
            Ok(x) => {
                cover(2);
                p!(c05, good, 531);
                p!(c05, x.len() as u64 == n, 532);
                if x.len() as u64 != n { return }
                for i in [0, 1, 8000, BIG - 1] { p!(c05, x[i as usize] == s.u8(a.start + i), 533) }
                p!(c05, x[BIG as usize] == s.u8(z.start), 534);
                if n >= 2 * BIG { p!(c05, x[2 * BIG as usize - 1] == s.u8(z.start + BIG - 1), 535) }
                if n > 2 * BIG { p!(c05, x[2 * BIG as usize] == s.u8(s.cell(item(&s, &k, &d, 2).0).start), 536) }
            }
        }
    }
}
