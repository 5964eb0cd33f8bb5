//! Native replay of a counterexample: runs one harness entry against the natively compiled real code
//! with the input values the solver found. Exit 42 = the assertion of the property fails.
use std::cell::RefCell;
use std::collections::VecDeque;
thread_local! {
    static IN: RefCell<VecDeque<(String, u64)>> = RefCell::new(VecDeque::new());
    static TAG: RefCell<String> = RefCell::new(String::new());
}
fn s(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
}
fn done(code: i32, msg: &str) -> ! {
    println!("{msg}");
    std::process::exit(code)
}
#[no_mangle]
pub extern "C" fn sx_sym(name: *const u8, len: usize, _bits: u32) -> u64 {
    let name = s(name, len);
    IN.with(|q| match q.borrow_mut().pop_front() {
        Some((n, v)) => {
            if n != name {
                done(44, &format!("REPLAY-MISMATCH: input {n} where the code asks for {name}"));
            }
            println!("  {name} = {v}");
            v
        }
        None => done(45, "REPLAY-ENDED: inputs used up without a failure"),
    })
}
#[no_mangle]
pub extern "C" fn sx_assume(b: bool) {
    if !b {
        done(46, "REPLAY-ASSUME: an assumption does not hold on this input")
    }
}
#[no_mangle]
pub extern "C" fn sx_check(tag: *const u8, len: usize, b: bool) {
    let t = s(tag, len);
    let want = TAG.with(|x| x.borrow().clone());
    let head = t.split(':').next().unwrap_or("");
    if want != "*" && !head.split('|').any(|x| x == want) {
        return;
    }
    if !b {
        done(42, &format!("REPLAY-FAILED-CHECK: {t}"));
    }
}
#[no_mangle]
pub extern "C" fn sx_want(tag: *const u8, len: usize) -> bool {
    TAG.with(|x| {
        let x = x.borrow();
        *x == "*" || s(tag, len).split('|').any(|t| t == *x)
    })
}
#[no_mangle]
pub extern "C" fn sx_scope(tag: *const u8, len: usize) {
    TAG.with(|x| {
        let mut x = x.borrow_mut();
        if s(tag, len).split('|').any(|t| t == *x) {
            *x = "*".into();
        }
    })
}
#[no_mangle]
pub extern "C" fn sx_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn sx_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sx_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
pub extern "C" fn sx_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
pub extern "C" fn sx_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sx_stop() -> ! {
    done(47, "REPLAY-END: path ended without a failure")
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (entry, tag, file) = (&a[1], &a[2], &a[3]);
    TAG.with(|x| *x.borrow_mut() = tag.clone());
    let text = std::fs::read_to_string(file).unwrap();
    IN.with(|q| {
        for l in text.lines() {
            let mut p = l.rsplitn(2, ' ');
            let v = p.next().unwrap().parse::<u64>().unwrap();
            q.borrow_mut().push_back((p.next().unwrap_or("").to_string(), v));
        }
    });
    for t in harness::all_entries() {
        if t.0 == entry {
            (t.1)();
            done(47, "REPLAY-END: the harness finished without a failure");
        }
    }
    done(48, "no such harness");
}
