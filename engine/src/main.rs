mod dl;
mod exec;
mod llvm;
mod solver;
mod term;
use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o + "\""
}
fn main() {
    // run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let bc = get("--bc").expect("--bc");
    let entry = get("--entry").expect("--entry");
    let llvm = get("--llvm").expect("--llvm");
    let z3: Vec<String> = get("--z3").expect("--z3").split(':').map(|x| x.to_string()).collect();
    let t0 = Instant::now();
    let m = match llvm::Module::load(&llvm, &bc) { Ok(m) => m, Err(e) => { println!("{{\"status\":\"error\",\"error\":{}}}", js(&e)); return 2; } };
    let sv = match solver::Solver::new(&z3, num("--qtimeout", 60000) as u32) { Ok(s) => s, Err(e) => { println!("{{\"status\":\"error\",\"error\":{}}}", js(&e)); return 2; } };
    let load = t0.elapsed().as_secs_f64();
    let o = exec::Opts {
        shard: num("--shard", 0), nshard: num("--nshard", 1), depth: num("--depth", 0) as u32, max_steps: num("--max-steps", 400_000_000),
        max_viol: num("--max-viol", 1) as usize, deadline: get("--time").map(|x| Instant::now() + Duration::from_secs(x.parse().unwrap())),
        samples: num("--samples", 4) as usize, trace: args.iter().any(|a| a == "--trace"),
        params: get("--params").map(|p| p.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
    };
    let mut ex = exec::Ex::new(m, sv, o);
    let r = ex.init(&entry).and_then(|_| ex.run());
    let mut out = String::new();
    let status = match &r { Err(_) => "error", Ok(_) if !ex.viol.is_empty() => "violation", _ => "ok" };
    // a violation found before an engine error still counts (it is replayed natively before being reported)
    let status = if !ex.viol.is_empty() { "violation" } else { status };
    write!(out, "{{\"status\":{},\"entry\":{}", js(status), js(&entry)).unwrap();
    if let Err(e) = &r { write!(out, ",\"error\":{}", js(e)).unwrap(); }
    let s = &ex.st;
    let q = &ex.sv.st;
    write!(out, ",\"paths\":{},\"dropped\":{},\"panic_paths\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"assert_syms\":{},\"symbolic_branches\":{},\"undef_vars\":{},\"race_checks\":{}", s.paths, s.dropped, s.panic_paths, s.forks, s.steps, s.asserts, s.assert_syms, s.symbolic_branches, s.undef_vars, s.race_checks).unwrap();
    write!(out, ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache\":{},\"model_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"z3\":{},\"terms\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"max_pc\":{}", q.queries, q.sat, q.unsat, q.unknown, q.cache, q.model_hits, q.time, q.max, js(&ex.sv.version), ex.ts.n.len(), load, t0.elapsed().as_secs_f64(), ex.max_pc).unwrap();
    out += ",\"reached\":{";
    out += &ex.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",");
    out += "},\"functions\":[";
    let mut f: Vec<_> = ex.funcs_used.iter().map(|i| js(&ex.m.funcs[*i as usize].name)).collect();
    f.sort();
    out += &f.join(",");
    let list = |v: &Vec<i128>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let ufs = |v: &Vec<(u32, Vec<u128>, u128)>| v.iter().map(|(f, a, r)| format!("[{},{},{}]", f, a.iter().map(|x| (*x as u64).to_string()).collect::<Vec<_>>().join(","), *r as u64)).collect::<Vec<_>>().join(",");
    out += "],\"violations\":[";
    out += &ex.viol.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"uf\":[{}],\"stack\":[{}]}}", js(&v.kind), js(&v.msg), list(&v.inputs), ufs(&v.uf), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    out += "],\"samples\":[";
    out += &ex.samples.iter().map(|v| format!("{{\"inputs\":[{}],\"uf\":[{}],\"obs\":[{}],\"panic\":{}}}", list(&v.inputs), ufs(&v.uf), v.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.panic)).collect::<Vec<_>>().join(",");
    out += "]}";
    println!("{out}");
    match status { "ok" => 0, "violation" => 1, _ => 2 }
}
