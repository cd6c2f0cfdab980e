//! Native execution of a harness on concrete inputs: `replay FILE...`.
//! Input file, line by line: `harness NAME`, `case N`, `sym V` (in call order), `region LEN` followed by `at OFF HEXBYTES`.
use std::io::Write;
use std::sync::Mutex;

struct Region { len: usize, bytes: Vec<(usize, Vec<u8>)> }
#[derive(Default)]
struct Input { harness: String, case: u64, syms: Vec<u64>, regions: Vec<Region>, si: usize, ri: usize }
static INPUT: Mutex<Option<Input>> = Mutex::new(None);

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
}

fn say(s: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
fn finish(s: &str) -> ! {
    say(s.to_string());
    std::process::exit(0)
}

#[no_mangle] extern "C" fn sym_u(width: u32) -> u64 {
    let mut g = INPUT.lock().unwrap();
    let i = g.as_mut().unwrap();
    let v = i.syms.get(i.si).copied();
    i.si += 1;
    drop(g);
    match v {
        Some(v) => if width == 64 { v } else { v & ((1u64 << width) - 1) },
        None => finish("MISMATCH no more symbols"),
    }
}
#[no_mangle] extern "C" fn sym_region(len: usize, _zero: u32) -> *mut u8 {
    let mut g = INPUT.lock().unwrap();
    let i = g.as_mut().unwrap();
    let k = i.ri;
    i.ri += 1;
    let Some(r) = i.regions.get(k) else { drop(g); finish("MISMATCH no more regions") };
    if r.len != len { drop(g); finish("MISMATCH region length") }
    let p = unsafe { mmap(std::ptr::null_mut(), len.max(1) + 4096, 3, 0x4022, -1, 0) };
    if p as isize == -1 { drop(g); finish("MISMATCH mmap failed") }
    for (o, b) in &r.bytes {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(*o), b.len()) }
    }
    p
}
#[no_mangle] extern "C" fn sym_assume(c: bool) { if !c { finish("ASSUME-FAIL") } }
#[no_mangle] extern "C" fn sym_assert(c: bool, id: u32) { if !c { finish(&format!("ASSERT-FAIL {id}")) } }
#[no_mangle] extern "C" fn sym_cover(id: u32) { say(format!("COVER {id}")) }
#[no_mangle] extern "C" fn sym_out(v: u64) { say(format!("OUT {v}")) }
#[no_mangle] extern "C" fn sym_case() -> u64 { INPUT.lock().unwrap().as_ref().unwrap().case }
#[no_mangle] extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sym_peek(p: *const u8, len: usize, off: usize, n: u32) -> u64 {
    let n = n as usize;
    match off.checked_add(n) {
        Some(e) if e <= len => {}
        _ => return 0,
    }
    let mut v = 0u64;
    for k in 0..n { v |= unsafe { *p.add(off + k) as u64 } << (8 * k) }
    v
}

fn parse(path: &str) -> Input {
    let mut i = Input::default();
    for l in std::fs::read_to_string(path).expect("read input").lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("harness") => i.harness = w.next().unwrap().to_string(),
            Some("case") => i.case = w.next().unwrap().parse().unwrap(),
            Some("sym") => i.syms.push(w.next().unwrap().parse().unwrap()),
            Some("region") => i.regions.push(Region { len: w.next().unwrap().parse().unwrap(), bytes: vec![] }),
            Some("at") => {
                let o = w.next().unwrap().parse().unwrap();
                let h = w.next().unwrap();
                let b = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
                i.regions.last_mut().unwrap().bytes.push((o, b));
            }
            _ => {}
        }
    }
    i
}

fn main() {
    let path = std::env::args().nth(1).expect("usage: replay FILE");
    unsafe { alarm(std::env::args().nth(2).map(|s| s.parse().unwrap()).unwrap_or(20)); }
    std::panic::set_hook(Box::new(|p| {
        let m = if let Some(s) = p.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = p.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        finish(&format!("PANIC {} @ {}", m.replace('\n', " "), l));
    }));
    let i = parse(&path);
    let name = i.harness.clone();
    *INPUT.lock().unwrap() = Some(i);
    for t in harness::tables() {
        for (n, f) in t.iter() {
            if *n == name { f(); finish("END") }
        }
    }
    finish("MISMATCH unknown harness")
}
