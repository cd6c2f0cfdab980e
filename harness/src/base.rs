//! opening a hive
use crate::sym::*;
use nt_hive::*;

/// bit n is set if rule n of the base block is broken
fn broken(s: &Regf) -> (u32, u32) {
    let mut x = 0;
    for i in 0..127 { x ^= s.b32(4 * i) }
    let sum = if x == 0 { 1 } else if x == u32::MAX { u32::MAX - 1 } else { x };
    let size = s.b32(40);
    let b = ((s.b32(0) != u32::from_le_bytes(*b"regf")) as u32) | ((s.b32(4) != s.b32(8)) as u32) << 1
        | (!((s.b32(20) == 1) & (s.b32(24) >= 3)) as u32) << 2 | ((s.b32(28) != 0) as u32) << 3 | ((s.b32(32) != 1) as u32) << 4
        | ((size & 4095 != 0) as u32) << 5 | ((size as u64 > s.dl) as u32) << 6 | ((s.b32(44) != 1) as u32) << 7
        | ((s.b32(508) != sum) as u32) << 8;
    (b, sum)
}

/// the error is true of a base block rule
fn fault(s: &Regf, e: &NtHiveError, b: u32, sum: u32) -> bool {
    let bit = |n: u32| b >> n & 1 != 0;
    match e {
        NtHiveError::InvalidFourByteSignature { offset, expected, actual } =>
            bit(0) & (*offset == 0) & (expected.len() == 4 && u32::from_le_bytes([expected[0], expected[1], expected[2], expected[3]]) == u32::from_le_bytes(*b"regf"))
                & (u32::from_le_bytes(*actual) == s.b32(0)),
        NtHiveError::SequenceNumberMismatch { primary, secondary } => bit(1) & (*primary == s.b32(4)) & (*secondary == s.b32(8)),
        NtHiveError::UnsupportedVersion { major, minor } => bit(2) & (*major == s.b32(20)) & (*minor == s.b32(24)),
        NtHiveError::UnsupportedFileType { expected, actual } => bit(3) & (*expected == 0) & (*actual == s.b32(28)),
        NtHiveError::UnsupportedFileFormat { expected, actual } => bit(4) & (*expected == 1) & (*actual == s.b32(32)),
        NtHiveError::InvalidSizeFieldAlignment { offset, size, expected_alignment } =>
            bit(5) & (*offset == 40) & (*size as u64 == s.b32(40) as u64) & (*expected_alignment == 4096),
        NtHiveError::InvalidSizeField { offset, expected, actual } => bit(6) & (*offset == 40) & (*expected as u64 == s.b32(40) as u64) & (*actual as u64 == s.dl),
        NtHiveError::UnsupportedClusteringFactor { expected, actual } => bit(7) & (*expected == 1) & (*actual == s.b32(44)),
        NtHiveError::InvalidChecksum { expected, actual } => bit(8) & pair(*expected as usize, *actual as usize, s.b32(508) as u64, sum as u64),
        _ => false,
    }
}

fn short(e: &NtHiveError, len: usize) -> bool {
    match e {
        NtHiveError::InvalidHeaderSize { offset, expected, actual } => (*offset == 0) & (*expected == 4096) & (*actual == len),
        _ => false,
    }
}

crate::harness! {
    base_new {
        let b = &any_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        if b.len() < 4096 {
            match Hive::new(b) {
                Ok(_) => p!(c03, false, 301),
                Err(e) => { cover(1); p!(c16, short(&e, b.len()), 1601) }
            }
            return
        }
        let (bad, sum) = broken(&s);
        match Hive::new(b) {
            Ok(h) => {
                cover(2);
                p!(c03, bad == 0, 302);
                p!(c03, (h.major_version() == 1) & (h.minor_version() == s.b32(24)), 303);
            }
            Err(e) => {
                cover(3);
                p!(c03, bad != 0, 304);
                p!(c03, fault(&s, &e, bad, sum), 305);
                p!(c16, fault(&s, &e, bad, sum), 1603);
            }
        }
    }
    base_later {
        let b = &any_bytes(MAXLEN)[..];
        let s = Regf::new(b);
        let h = match Hive::without_validation(b) {
            Ok(h) => { p!(c03, b.len() >= 4096, 311); h }
            Err(e) => { cover(1); p!(c03, b.len() < 4096, 312); p!(c16, short(&e, b.len()), 1604); return }
        };
        let (bad, sum) = broken(&s);
        match h.validate() {
            Ok(()) => { cover(2); p!(c03, bad == 0, 313); }
            Err(e) => {
                cover(3);
                p!(c03, bad != 0, 314);
                p!(c03, fault(&s, &e, bad, sum), 315);
                p!(c16, fault(&s, &e, bad, sum), 1605);
            }
        }
        p!(c03, (h.major_version() == s.b32(20)) & (h.minor_version() == s.b32(24)), 316);
    }
}
