//! laws of the iterators, in every state that skipping can reach
use crate::big;
use crate::data::*;
use crate::img::Img;
use crate::keys::*;
use crate::names::{decode, same, Text};
use crate::strs;
use crate::sym::*;
use nt_hive::*;

/// which law is decided
pub const NTH: u64 = 0;
pub const COUNT: u64 = 1;
pub const LAST: u64 = 2;
pub const CLONE: u64 = 3;
pub const FUSED: u64 = 4;
pub const STEPS: u64 = 5;

/// `there(n)`: the list has a position n; `want(n, r)`: r is what this position gives.  Items are `calm`:
/// readable, or outside of the hive (which error it is, is the matter of other properties)
fn laws<I: Iterator + Clone>(law: u64, mut it: I, there: impl Fn(u64) -> bool, exact: bool, len: impl Fn(&I) -> u64, want: impl Fn(u64, &I::Item) -> bool,
                             calm: impl Fn(u64), id: u32) {
    // case split
    let there = |n: u64| concretize(there(n) as u64) == 1;
    let judge = |n: Option<u64>, r: Option<I::Item>, id: u32| {
        match (n, r) {
            (None, r) => { cover(1); p!(c17, r.is_none(), id) }
            (Some(_), None) => p!(c17, false, id + 1),
            (Some(n), Some(x)) => { cover(2); p!(c17, want(n, &x), id + 2) }
        }
    };
    // position n, if there is one
    let here = |n: u64| if there(n) { calm(n); Some(n) } else { None };
    // the position to continue at when nth(n) was called at a position
    let skip = |at: Option<u64>, n: u64| {
        let at = at?;
        assume(n <= u64::MAX - 2 - (1 << 32));
        let p = at.wrapping_add(n);
        if there(p) { calm(p); Some(p + 1) } else { None }
    };
    if law == STEPS {
        let mut at = Some(0);
        for _ in 0..3 {
            let n = at.and_then(here);
            judge(n, it.next(), id);
            at = n.map(|n| n + 1);
        }
        return
    }
    // the state after any skip
    let a = any_u64();
    let at = skip(Some(0), a);
    let first = it.nth(a as usize);
    match law {
        NTH => {
            drop(first);
            let b = any_u64();
            let next = skip(at, b);
            judge(next.map(|n| n - 1), it.nth(b as usize), id + 10);
            judge(next.and_then(here), it.next(), id + 20);
        }
        COUNT => {
            let (lo, hi) = it.size_hint();
            let l = len(&it);
            let n = it.count() as u64;
            p!(c17, n < 1 << 33, id + 30);
            if n >= 1 << 33 { return }
            match at {
                None => p!(c17, n == 0, id + 31),
                Some(at) => {
                    cover(4);
                    if n > 0 { p!(c17, there(at + n - 1), id + 32) }
                    p!(c17, !there(at + n), id + 33);
                }
            }
            p!(c17, (lo as u64 == n) | (!exact & (lo as u64 <= n)), id + 34);
            match hi { Some(hi) => p!(c17, (hi as u64 == n) | (!exact & (hi as u64 >= n)), id + 35), None => p!(c17, !exact, id + 36) }
            p!(c17, l == n, id + 37);
        }
        LAST => {
            let Some(at) = at else { judge(None, it.last(), id + 40); return };
            if !there(at) { judge(None, it.last(), id + 43); return }
            let p = any_u64();
            assume((p >= at) & (p < 1 << 33));
            assume(there(p));
            assume(!there(p + 1));
            calm(p);
            judge(Some(p), it.last(), id + 46)
        }
        CLONE => {
            let mut c = it.clone();
            let b = any_u64();
            skip(at, b);
            drop(it.nth(b as usize));
            judge(at.and_then(here), c.next(), id + 50);
        }
        _ => {
            assume(at.is_none());
            cover(3);
            p!(c17, first.is_none(), id + 60);
            p!(c17, it.clone().count() == 0, id + 61);
            p!(c17, it.clone().last().is_none(), id + 62);
            p!(c17, it.next().is_none(), id + 63);
            p!(c17, it.nth(any_u64() as usize).is_none(), id + 64);
            p!(c17, it.next().is_none(), id + 65);
            let (lo, hi) = it.size_hint();
            p!(c17, lo == 0, id + 66);
            p!(c17, !exact | (hi == Some(0)), id + 67);
        }
    }
}

/// everything an iterator is expected to yield, worked out beforehand
struct Listed<T> { v: Vec<T> }

crate::harness! {
    // subkeys in a leaf; case % 8: the law, case / 8: through SubKeyNodes or LeafKeyNodes
    iter_leaf {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let off = s.u32(c.start + 28);
        let l = s.list(off);
        assume((off != NONE) & l.ok & l.leaf);
        short(l.count);
        let l = l.fixed();
        let Some(Ok(it)) = k.subkeys() else { p!(c17, false, 1700); return };
        let want = |n: u64, r: &Result<Key, NtHiveError>| {
            let e = s.entry(&l, n);
            match r { Ok(k) => is_key(&s, k, e), Err(_) => !s.cell(e).hdr }
        };
        let calm = |n: u64| { let e = s.entry(&l, n); if concretize(s.cell(e).hdr as u64) == 1 { assume(s.key_ok(e)) } };
        let law = case() % 8;
        if case() / 8 == 0 { laws(law, it, |n| n < l.count, false, |i| i.size_hint().0 as u64, want, calm, 1710) }
        else if let SubKeyNodes::Leaf(it) = it { laws(law, it, |n| n < l.count, true, |i| i.len() as u64, want, calm, 1710) }
        else { p!(c17, false, 1701) }
    }
    iter_values {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((k, c)) = root(&s, &h) else { return };
        let l = s.cell(s.u32(c.start + 40));
        let count = s.u32(c.start + 36) as u64;
        short(count);
        let Some(Ok(it)) = k.values() else { return };
        let want = |n: u64, r: &Result<Val, NtHiveError>| {
            let e = s.item4(l.start, n);
            match r { Ok(v) => is_val(&s, v, e), Err(_) => !s.cell(e).hdr }
        };
        let calm = |n: u64| { let e = s.item4(l.start, n); if concretize(s.cell(e).hdr as u64) == 1 { assume(s.value_ok(e)) } };
        laws(case(), it, |n| n < count, true, |i| i.len() as u64, want, calm, 1710)
    }
    iter_big {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume(k.big());
        short((k.size - 1) / BIG);
        let d = Db::at(&s, &k);
        let Ok(KeyValueData::Big(it)) = v.data() else { return };
        let want = |n: u64, r: &Result<&[u8], NtHiveError>| {
            let (e, want) = big::item(&s, &k, &d, n);
            let c = s.cell(e);
            match r { Ok(x) => (x.len() as u64 == want) & (pos(b, x) == BASE + c.start), Err(_) => !c.hdr }
        };
        let calm = |n: u64| { let (e, want) = big::item(&s, &k, &d, n); let c = s.cell(e); if concretize(c.hdr as u64) == 1 { assume(c.ok & c.fits(0, want)) } };
        laws(case(), it, |n| concretize((n < 1 << 17) as u64) == 1 && n.wrapping_mul(BIG) < k.size, true, |i| i.len() as u64, want, calm, 1710)
    }
    // subkeys behind an index root: case / 8 gives the shape
    iter_ri {
        let mut m = Img::new(4096);
        let r = m.key(3, true);
        m.root(r);
        let ks = [m.key(0, true), m.key(1, true), m.key(2, false), m.key(3, true), m.key(4, true)];
        let lists = match case() / 8 {
            0 => vec![],
            1 => vec![m.list(LF, &ks[0..1]), m.list(LI, &ks[1..4]), m.list(LH, &ks[4..5])],
            // an empty leaf, a list outside of the hive
            2 => vec![m.list(LI, &ks[0..2]), m.list(LF, &[]), 0x10_0000, m.list(LH, &ks[2..5])],
            // one leaf twice
            _ => { let l = m.list(LI, &ks[0..2]); vec![l, m.list(LH, &ks[1..3]), l] }
        };
        let l = m.list(RI, &lists);
        m.subkeys(r, 5, l);
        // two keys may be unreadable
        for i in [1, 3] { let x = any_u8() & 1; m.w8(Img::at(ks[i]), 0x6e ^ x) }
        let b = &m.b[..];
        let s = Regf::new(b);
        let mut w = Walk::new(s.list(l));
        let mut v = Vec::new();
        loop {
            match w.next(&s) {
                Want::End => break,
                Want::Key(o) => v.push((o, true)),
                Want::Bad(o) | Want::BadList(o) => v.push((o, false)),
            }
        }
        let all = Listed { v };
        let Some(h) = open(b) else { return };
        let Some((k, _)) = root(&s, &h) else { return };
        let Some(Ok(it)) = k.subkeys() else { p!(c17, false, 1702); return };
        let want = |n: u64, r: &Result<Key, NtHiveError>| {
            let (o, fine) = all.v[concretize(n) as usize];
            match r { Ok(k) => fine && is_key(&s, k, o), Err(_) => !fine }
        };
        let law = case() % 8;
        let count = all.v.len() as u64;
        let lo = |i: &SubKeyNodes<'_, &[u8]>| i.clone().count() as u64;
        laws(law, it, |n| n < count, false, lo, want, |_| (), 1710)
    }
    // multi-strings of case / 8 units
    iter_multi {
        let b = &any_hive_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let Some(h) = open(b) else { return };
        let Some((v, k)) = value0(&s, &h) else { return };
        assume(k.small() & (k.size == case() / 8 * 2) & (k.ty == 7) & !k.stored);
        let k = Vk { size: concretize(k.size), ..k };
        let (u, n) = strs::units(&s, &k);
        let mut all = Listed { v: Vec::new() };
        let mut i = 0;
        loop {
            let w = strs::upto(&u[i..n]);
            if w == 0 { break }
            all.v.push(decode(&u[i..i + w]).0);
            i += w;
            if i < n { i += 1 }
        }
        let Ok(it) = v.multi_string_data() else { p!(c17, false, 1703); return };
        let want = |n: u64, r: &Result<String, NtHiveError>| {
            match r { Ok(x) => { let t: &Text = &all.v[concretize(n) as usize]; same(x.as_bytes(), t) } Err(_) => false }
        };
        let count = all.v.len() as u64;
        laws(case() % 8, it, |n| n < count, false, |i: &RegMultiSZStrings<'_, &[u8]>| i.clone().count() as u64, want, |_| (), 1710)
    }
}
