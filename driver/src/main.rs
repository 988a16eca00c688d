#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod bits;
mod facts;
mod interp;
mod front;
mod models;
mod props;
mod query;
mod taint;
mod term;
mod text;
mod value;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("VQ").is_ok() {
            query::run(tcx);
        } else {
            run(tcx);
        }
        Compilation::Stop
    }
}
fn run(tcx: TyCtxt<'_>) {
    let want = std::env::var("VFN").unwrap_or_default();
    let mut models = std::collections::HashMap::new();
    let mut targets = vec![];
    for id in tcx.hir_body_owners() {
        let d = id.to_def_id();
        let p = tcx.def_path_str(d);
        if p.starts_with("models::") {
            models.insert(p["models::".len()..].to_string(), d);
        } else {
            if want.split(',').any(|w| p == w || p == format!("checks::{w}")) {
                targets.push((p, d));
            }
        }
    }
    for (p, d) in targets {
        let t0 = std::time::Instant::now();
        let mut ip = interp::Interp::new(tcx);
        ip.models = models.clone();
        let inst = rustc_middle::ty::Instance::mono(tcx, d);
        let body = ip.body(inst).expect("body");
        let mut st = value::State { frames: vec![], heap: Default::default(), facts: Default::default(), path: None, ghost: Default::default() };
        let mut args = vec![];
        for i in 1..=body.body.arg_count {
            let ty = body.body.local_decls[rustc_middle::mir::Local::from_usize(i)].ty;
            args.push(ip.materialize(&mut st, ty, "in"));
        }
        let r = ip.exec_fn(st, inst, args);
        println!("== {p}: {} result states, {} obligations, {} failed, {} loops, steps {}, {:.2}s", r.len(), ip.log.len(), ip.log.iter().filter(|o| !o.ok).count(), ip.loops.len(), ip.steps, t0.elapsed().as_secs_f64());
        let mut seen = std::collections::BTreeSet::new();
        for o in ip.log.iter().filter(|o| !o.ok) {
            if seen.insert((o.func.clone(), o.site.clone(), o.what.clone())) {
                println!("  FAIL {} {} {} : {} :: {}\n       {}", o.kind, o.func, o.site, o.what, o.why, o.stack);
            }
        }
        for l in ip.loops.iter().filter(|l| !l.ok) {
            println!("  LOOP {} {} {}", l.func, l.site, l.measure);
        }
        if let Ok(f) = std::env::var("VOUT") {
            std::fs::write(f, json(&p, &ip, r.len(), t0.elapsed().as_secs_f64())).expect("write result");
        }
        for (k, n) in &ip.unsupported {
            println!("  UNSUP {k} x{n}");
        }
        for (k, n) in &ip.opaque_calls {
            println!("  OPAQUE {k} x{n}");
        }
    }
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// the result of one analysis: obligations folded by construct, loops, functions entered
fn json(name: &str, ip: &interp::Interp<'_>, states: usize, secs: f64) -> String {
    let mut m: std::collections::BTreeMap<(String, String, String, String), (usize, usize, String, String)> = Default::default();
    for o in &ip.log {
        let e = m.entry((o.kind.clone(), o.func.clone(), o.site.clone(), o.what.clone())).or_default();
        e.0 += 1;
        if !o.ok {
            e.1 += 1;
            if e.2.is_empty() {
                e.2 = o.why.clone();
                e.3 = o.stack.clone();
            }
        }
    }
    let obl: Vec<String> = m.iter().map(|((k, f, s, w), (n, bad, why, st))| format!("{{\"kind\":{},\"func\":{},\"site\":{},\"what\":{},\"n\":{n},\"bad\":{bad},\"why\":{},\"stack\":{}}}", q(k), q(f), q(s), q(w), q(why), q(st))).collect();
    let lp: Vec<String> = ip.loops.iter().map(|l| format!("{{\"func\":{},\"site\":{},\"ok\":{},\"measure\":{}}}", q(&l.func), q(&l.site), l.ok, q(&l.measure))).collect();
    let mp = |m: &std::collections::BTreeMap<String, usize>| m.iter().map(|(k, n)| format!("{}:{n}", q(k))).collect::<Vec<_>>().join(",");
    format!(
        "{{\"fn\":{},\"states\":{states},\"secs\":{secs:.3},\"steps\":{},\"obligations\":[{}],\"loops\":[{}],\"functions\":{{{}}},\"unsupported\":{{{}}},\"opaque\":{{{}}}}}\n",
        q(name),
        ip.steps,
        obl.join(",\n"),
        lp.join(",\n"),
        mp(&ip.functions),
        mp(&ip.unsupported),
        mp(&ip.opaque_calls)
    )
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("analyse") {
        // vdriver analyse ARGSFILE: rerun the recorded compilation of the harness with the analysis attached
        let text = std::fs::read_to_string(&args[2]).expect("args file");
        let mut a: Vec<String> = vec![];
        for x in text.split('\0').filter(|x| !x.is_empty()) {
            // the directory and the environment the compiler was run in
            if let Some(d) = x.strip_prefix("\x01cwd ") {
                std::env::set_current_dir(d).expect("directory");
            } else if let Some((k, v)) = x.strip_prefix("\x01env ").and_then(|e| e.split_once('=')) {
                unsafe { std::env::set_var(k, v) };
            } else {
                a.push(x.to_string());
            }
        }
        let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            rustc_driver::compiler_entrypoint(&a, &mut Cb);
        });
        let _ = r.unwrap().join();
        return;
    }
    // invoked as: vdriver rustc args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
    let rec = match std::env::var("VREC") {
        Ok(d) if !name.starts_with("build_script_") && std::env::var("VRECDIRS").unwrap_or("/repo".into()).split(':').any(|r| dir == r || dir.starts_with(&format!("{r}/"))) => Some(format!("{d}/{name}.args")),
        _ => None,
    };
    let main = if name == std::env::var("VCRATE").unwrap_or("harness".into()) { std::env::var("VARGS").ok() } else { None };
    for f in [rec, main].into_iter().flatten() {
        {
            let mut a = vec![format!("\x01cwd {}", std::env::current_dir().expect("directory").display())];
            for (k, v) in std::env::vars() {
                if (k.starts_with("CARGO_") && k != "CARGO_MAKEFLAGS") || k == "OUT_DIR" {
                    a.push(format!("\x01env {k}={v}"));
                }
            }
            let mut it = args.iter();
            while let Some(x) = it.next() {
                // keep only what is needed to type-check again; write no output
                if x.starts_with("--emit") || x.starts_with("--json") || x.starts_with("--error-format") {
                    continue;
                }
                if x == "-C" {
                    let y = it.next().cloned().unwrap_or_default();
                    if y.starts_with("incremental") {
                        continue;
                    }
                    a.push(x.clone());
                    a.push(y);
                    continue;
                }
                a.push(x.clone());
            }
            a.push("--emit=metadata".into());
            std::fs::write(f, a.join("\0")).expect("write args");
        }
    }
    struct N;
    impl Callbacks for N {}
    rustc_driver::compiler_entrypoint(&args, &mut N);
}
