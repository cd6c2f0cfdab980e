use crate::sym::*;
use nt_hive::*;

crate::harness! {
    c02_root {
        let b = any_hive_bytes(MAXLEN);
        let b = &b[..];
        let s = Regf::new(b);
        let h = match Hive::without_validation(b) { Ok(h) => h, Err(_) => { check(false, 1); return } };
        let c = s.cell(s.root_offset());
        let good = c.ok & c.fits(0, 76) & (s.u16(c.start) == 0x6b6e);
        match h.root_key_node() {
            Ok(k) => {
                cover(1);
                check(good, 2);
                let nl = s.u16(c.start + 72) as u64;
                match k.name() {
                    Ok(n) => {
                        cover(2);
                        let (nb, latin) = name_bytes(&n);
                        check(c.fits(76, nl), 3);
                        check(pos(b, nb) == BASE + c.start + 76, 4);
                        check(nb.len() as u64 == nl, 5);
                        check(latin == (s.u16(c.start + 2) & 0x20 != 0), 6);
                    }
                    Err(NtHiveError::InvalidSizeField{..}) => { cover(3); check(!c.fits(76, nl), 7); }
                    Err(_) => check(false, 8),
                }
            }
            Err(_) => { cover(4); check(!good, 9); }
        }
    }
}
