//! Runs harness entries natively on concrete inputs.
//!   replay FILE            one case, exit 0 held / 10 check failed / 134 panic
//!   replay --batch FILE    many cases, printing what each observed
//! FILE lines:  case ENTRY cfg,cfg,... id=val,id=val,...
use std::cell::UnsafeCell;
use std::io::Write;

struct G(UnsafeCell<S>);
unsafe impl Sync for G {}
struct S {
    inputs: Vec<(u64, u64)>,
    cfg: Vec<u64>,
    obs: Vec<u64>,
    failed: Option<String>,
    assumed: bool,
    batch: bool,
}
static ST: G = G(UnsafeCell::new(S {
    inputs: Vec::new(),
    cfg: Vec::new(),
    obs: Vec::new(),
    failed: None,
    assumed: true,
    batch: false,
}));
fn st() -> &'static mut S {
    unsafe { &mut *ST.0.get() }
}

fn stop(code: i32) -> ! {
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn sx_sym(id: u64, lo: u64, hi: u64) -> u64 {
    for (i, v) in &st().inputs {
        if *i == id {
            return (*v).clamp(lo, hi);
        }
    }
    lo
}
#[no_mangle]
extern "C" fn sx_assume(c: u64) {
    if c == 0 {
        println!("ASSUMPTION-FAILED");
        stop(3);
    }
}
#[no_mangle]
extern "C" fn sx_check(c: u64, p: *const u8, n: usize) {
    if c == 0 {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("FAILED: {m}");
        stop(10);
    }
}
#[no_mangle]
extern "C" fn sx_ite(c: u64, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn sx_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn sx_obs(x: u64) {
    st().obs.push(x)
}
#[no_mangle]
extern "C" fn sx_reach(_: u64) {}
#[no_mangle]
extern "C" fn sx_cfg(i: u64) -> u64 {
    st().cfg.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn sx_and(a: u64, b: u64) -> u64 {
    a & b
}
#[no_mangle]
extern "C" fn sx_or(a: u64, b: u64) -> u64 {
    a | b
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (batch, file) = if a.len() > 2 && a[1] == "--batch" { (true, &a[2]) } else { (false, &a[1]) };
    st().batch = batch;
    let text = std::fs::read_to_string(file).unwrap();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 2 || w[0] != "case" {
            continue;
        }
        let s = st();
        s.cfg = w.get(2).map(|x| x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect()).unwrap_or_default();
        s.inputs = w
            .get(3)
            .map(|x| {
                x.split(',')
                    .filter(|y| y.contains('='))
                    .map(|y| {
                        let (i, v) = y.split_once('=').unwrap();
                        (i.parse().unwrap(), v.parse().unwrap())
                    })
                    .collect()
            })
            .unwrap_or_default();
        s.obs = Vec::new();
        symh::sx::reset();
        match symh::entry(w[1]) {
            None => {
                println!("no entry {}", w[1]);
                stop(2);
            }
            Some(f) => f(),
        }
        if batch {
            let o: Vec<String> = st().obs.iter().map(|x| x.to_string()).collect();
            println!("obs {}", o.join(","));
        }
    }
    println!("HELD");
    stop(0);
}
