//! sx: symbolic execution of LLVM IR with z3.
mod exec;
mod expr;
mod fx;
mod ll;
mod par;
mod solver;

use exec::{End, Exec, State};
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static mut OUTDIR: String = String::new();
#[allow(static_mut_refs)]
fn outdir() -> &'static str {
    unsafe { &OUTDIR }
}

fn write_case(ex: &Exec, st: &State, kind: &str, msg: &str, file: &str) {
    let mut s = String::new();
    let _ = write!(s, "{{\"kind\":{},\"what\":{},\"inputs\":[", js(kind), js(msg));
    for (i, (nid, idx)) in st.inputs.iter().enumerate() {
        let (_, w) = ex.pool.var_names[*idx as usize];
        let v = st.model.vals.get(*idx as usize).copied().unwrap_or(0) & expr::mask(w as u32);
        let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, js(&ex.names[*nid as usize]), v);
    }
    s.push_str("]}");
    let _ = std::fs::write(file, s);
}

pub fn report(ex: &mut Exec, st: &State, end: End) {
    let c = ex.shared.c;
    c.max_pc.fetch_max(st.pc.len() as u64, Relaxed);
    c.max_inputs.fetch_max(st.inputs.len() as u64, Relaxed);
    let (kind, msg) = match end {
        End::Done => {
            // every path numbered by a power of two is written out with the model the solver has for it
            let n = c.paths.fetch_add(1, Relaxed);
            if n.is_power_of_two() {
                write_case(ex, st, "completed", "", &format!("{}/sample-{:02}.json", outdir(), n.trailing_zeros()));
            }
            return;
        }
        End::Infeasible => {
            c.infeasible.fetch_add(1, Relaxed);
            return;
        }
        End::Unsupported(m) => {
            ex.shared.error(&format!("unsupported: {}", m));
            return;
        }
        End::Panic(m) => ("panic", m),
        End::Fault(m) => ("fault", m),
        End::StepLimit => ("nontermination", "step limit exceeded on one path".to_string()),
        End::Violation(m) => ("check", m),
    };
    c.paths.fetch_add(1, Relaxed);
    let n = c.violations.fetch_add(1, Relaxed);
    if n < ex.shared.max_violations {
        write_case(ex, st, kind, &msg, &format!("{}/violation-{}.json", outdir(), n));
    }
    if n + 1 >= ex.shared.max_violations {
        c.stop.store(2, Relaxed);
    }
}

/// Map executed debug locations to source functions and lines.
fn sources(m: &ll::Module, sh: &par::Shared) -> (Vec<(String, String)>, Vec<(String, u32)>) {
    use std::collections::{BTreeMap, BTreeSet};
    let field = |s: &str, k: &str| -> Option<String> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let i = s[from..].find(&pat)? + from;
            if i == 0 || !s.as_bytes()[i - 1].is_ascii_alphanumeric() {
                let t = &s[i + pat.len()..];
                if let Some(q) = t.strip_prefix('"') {
                    let e = q.find('"')?;
                    return Some(q[..e].to_string());
                }
                let e = t.find([',', ')']).unwrap_or(t.len());
                return Some(t[..e].to_string());
            }
            from = i + pat.len();
        }
    };
    let id = |s: &str| -> Option<u32> { s.strip_prefix('!')?.parse().ok() };
    let mut fns: BTreeSet<(String, String)> = BTreeSet::new();
    let mut lines: BTreeMap<(String, u32), ()> = BTreeMap::new();
    for d in 0..sh.ndbg as u32 + 1 {
        if unsafe { *sh.dbgmap.add(d as usize) } == 0 {
            continue;
        }
        let Some(loc) = m.md.get(&d) else { continue };
        let Some(l) = field(loc, "line").and_then(|x| x.parse::<u32>().ok()) else { continue };
        let mut sc = field(loc, "scope").and_then(|x| id(&x));
        let mut file = None;
        for _ in 0..50 {
            let Some(s) = sc else { break };
            let Some(t) = m.md.get(&s) else { break };
            if file.is_none() {
                file = field(t, "file").and_then(|x| id(&x)).and_then(|f| m.md.get(&f)).and_then(|t| {
                    let f = field(t, "filename")?;
                    if f.starts_with('/') {
                        return Some(f);
                    }
                    let d = field(t, "directory").unwrap_or_default();
                    Some(format!("{}/{}", d, f))
                });
            }
            if t.contains("DISubprogram") {
                let name = field(t, "name").unwrap_or_default();
                let name = name.split('<').next().unwrap_or("").to_string();
                if let Some(f) = &file {
                    if f.contains("/repo/") {
                        fns.insert((f.clone(), name.clone()));
                        lines.insert((f.clone(), l), ());
                    }
                }
                break;
            }
            sc = field(t, "scope").and_then(|x| id(&x));
        }
    }
    (fns.into_iter().collect(), lines.into_keys().collect())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut tag = "*".to_string();
    let mut out = ".".to_string();
    let mut timeout = 600u64;
    let mut workers = 8i64;
    let mut maxv = 1u64;
    let mut max_steps = 60_000_000u64;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--tag" => tag = v,
            "--out" => out = v,
            "--timeout" => timeout = v.parse().unwrap(),
            "--workers" => workers = v.parse().unwrap(),
            "--max-violations" => maxv = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    unsafe { OUTDIR = out.clone() };
    let _ = std::fs::create_dir_all(&out);
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read .ll").into_boxed_str());
    let m: &'static ll::Module = match ll::Module::parse(text) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("parse error: {}", e);
            std::process::exit(2);
        }
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let sh: &'static par::Shared = Box::leak(Box::new(par::Shared::new(
        m.fns.len(),
        m.md_max as usize,
        workers,
        t0 + Duration::from_secs(timeout),
        maxv,
    )));
    let mut ex = Exec::new(m, sh, &tag);
    ex.max_steps = max_steps;
    let st = match ex.initial(&entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(2);
        }
    };
    ex.stack.push(st);
    let ok = par::supervise(ex);
    let c = sh.c;
    let (fns, lines) = sources(m, sh);
    let mut irf: Vec<String> = vec![];
    for (i, f) in m.fns.iter().enumerate() {
        if unsafe { *sh.fnmap.add(i) } == 1 {
            irf.push(f.name.to_string());
        }
    }
    let viol = c.violations.load(Relaxed);
    let errs = c.errors.load(Relaxed);
    let status = if viol > 0 {
        "violation"
    } else if errs > 0 || !ok {
        "error"
    } else {
        "ok"
    };
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"status\":{},\"entry\":{},\"tag\":{},\"error\":{},\"paths\":{},\"assume_pruned\":{},\"violations\":{},\"forks\":{},\"queries\":{},\"z3_calls\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"instructions\":{},\"checks\":{},\"checks_symbolic\":{},\"processes\":{},\"max_path_constraints\":{},\"max_inputs\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\"z3\":{}",
        js(status),
        js(&entry),
        js(&tag),
        js(&sh.error_text()),
        c.paths.load(Relaxed),
        c.infeasible.load(Relaxed),
        viol,
        c.forks.load(Relaxed),
        c.queries.load(Relaxed),
        c.z3_calls.load(Relaxed),
        c.cache_hits.load(Relaxed),
        c.solver_ns.load(Relaxed) as f64 / 1e9,
        c.solver_max_ns.load(Relaxed) as f64 / 1e9,
        c.instrs.load(Relaxed),
        c.checks.load(Relaxed),
        c.checks_sym.load(Relaxed),
        c.procs.load(Relaxed),
        c.max_pc.load(Relaxed),
        c.max_inputs.load(Relaxed),
        parse_s,
        t0.elapsed().as_secs_f64(),
        js(&solver::version()),
    );
    s.push_str(",\"covers\":{");
    for (i, (n, k)) in sh.covers().iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(n), k);
    }
    s.push_str("},\"functions\":[");
    for (i, (f, n)) in fns.iter().enumerate() {
        let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, js(f), js(n));
    }
    s.push_str("],\"lines\":[");
    for (i, (f, l)) in lines.iter().enumerate() {
        let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, js(f), l);
    }
    let _ = write!(s, "],\"ir_functions\":{}}}", irf.len());
    std::fs::write(format!("{}/result.json", out), &s).unwrap();
    println!(
        "{} {} tag={} paths={} pruned={} viol={} queries={} z3={} hits={} solver={:.2}s instr={} wall={:.2}s{}",
        status,
        entry,
        tag,
        c.paths.load(Relaxed),
        c.infeasible.load(Relaxed),
        viol,
        c.queries.load(Relaxed),
        c.z3_calls.load(Relaxed),
        c.cache_hits.load(Relaxed),
        c.solver_ns.load(Relaxed) as f64 / 1e9,
        c.instrs.load(Relaxed),
        t0.elapsed().as_secs_f64(),
        if errs > 0 { format!(" ERROR: {}", sh.error_text()) } else { String::new() }
    );
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}
