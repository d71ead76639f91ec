mod exec;
mod expr;
mod ll;
mod poly;
mod rat;
mod z3;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn arr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String { format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(",")) }

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { eprintln!("usage: symex FILE.ll ENTRY OUT.json [wall=S] [paths=N] [steps=N] [check_ms=N] [branch_ms=N] [viol=N]"); std::process::exit(2); }
    let mut lim = exec::Limits { wall: 300.0, max_paths: 1_000_000, max_steps: 50_000_000, max_viol: 3, check_ms: 60_000, branch_ms: 10_000 };
    for a in &args[4..] {
        let (k, v) = a.split_once('=').expect("k=v");
        match k { "wall" => lim.wall = v.parse().unwrap(), "paths" => lim.max_paths = v.parse().unwrap(), "steps" => lim.max_steps = v.parse().unwrap(), "check_ms" => lim.check_ms = v.parse().unwrap(), "branch_ms" => lim.branch_ms = v.parse().unwrap(), "viol" => lim.max_viol = v.parse().unwrap(), _ => panic!("option {k}") }
    }
    let t0 = std::time::Instant::now();
    let m = ll::Module::load(&args[1]);
    let load = t0.elapsed().as_secs_f64();
    let entry = args[2].clone();
    let real = entry.starts_with("hr_");
    let wall = lim.wall;
    let (cms, bms) = (lim.check_ms, lim.branch_ms);
    let mut ex = exec::Ex::new(&m, real, lim);
    ex.run(&entry);
    let mut fns: Vec<(String, u64)> = ex.funcs.iter().map(|(f, c)| (ex.fname(*f), *c)).collect();
    fns.sort();
    let mut o = String::new();
    let inp = |v: &Vec<(u32, String, u128)>| arr(v.iter(), |(t, _, x)| format!("[{t},\"{x:x}\"]"));
    let ufs = |v: &Vec<(u32, Vec<u64>, u64)>| arr(v.iter(), |(t, a, r)| format!("[{t},{},\"{r:x}\"]", arr(a.iter(), |x| format!("\"{x:x}\""))));
    let _ = write!(o, "{{\"entry\":{},\"mode\":{},\"load_s\":{load:.2},\"wall_s\":{:.2},\"paths\":{},\"panic_paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},", js(&entry), js(if real { "exact-real" } else { "ieee754" }), ex.t0.elapsed().as_secs_f64(), ex.paths, ex.panics, ex.killed, ex.forks, ex.steps);
    let _ = write!(o, "\"limits\":{{\"wall\":{wall},\"check_ms\":{cms},\"branch_ms\":{bms}}},");
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"linear_abstraction_unsat\":{},\"div_nonzero_assumed\":{},\"unknown_branches\":{},", ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.cache_hits, ex.z.time, ex.z.slowest, ex.poly, ex.divassume, ex.unknown_branches);
    let _ = write!(o, "\"solver\":{},", js(&z3::Z3::version()));
    let mut ch: Vec<_> = ex.checks.iter().collect();
    ch.sort();
    let _ = write!(o, "\"checks\":{},", arr(ch, |(k, (n, d))| format!("{{\"id\":{k},\"evaluated\":{n},\"to_solver\":{d}}}")));
    let mut rc: Vec<_> = ex.reached.iter().collect();
    rc.sort();
    let _ = write!(o, "\"reached\":{},", arr(rc, |(k, n)| format!("[{k},{n}]")));
    let _ = write!(o, "\"errors\":{},", arr(ex.errors.iter(), |s| js(s)));
    let _ = write!(o, "\"inconclusive\":{},", arr(ex.inconclusive.iter(), |s| js(s)));
    let _ = write!(o, "\"violations\":{},", arr(ex.viol.iter(), |v| format!("{{\"kind\":{},\"id\":{},\"desc\":{},\"stack\":{},\"inputs\":{},\"ufs\":{}}}", js(&v.kind), v.id, js(&v.desc), arr(v.stack.iter(), |s| js(s)), inp(&v.inputs), ufs(&v.ufs))));
    let _ = write!(o, "\"samples\":{},", arr(ex.samples.iter(), |v| format!("{{\"end\":{},\"inputs\":{},\"ufs\":{},\"reach\":{},\"outs\":{}}}", js(&v.end), inp(&v.inputs), ufs(&v.ufs), arr(v.reach.iter(), |r| r.to_string()), arr(v.outs.iter(), |s| js(s)))));
    let _ = write!(o, "\"functions\":{}", arr(fns.iter(), |(n, c)| format!("[{},{c}]", js(n))));
    o.push('}');
    std::fs::write(&args[3], &o).unwrap();
    if std::env::var("SV_PROFILE").is_ok() {
        let mut fs: Vec<_> = ex.forksites.iter().collect();
        fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in fs.iter().take(15) { eprintln!("{n:8} forks at {}#{b}", ex.fname(*f)); }
    }
    eprintln!("{entry}: paths {} panics {} killed {} forks {} merges {} steps {} queries {}(+{}) solver {:.1}s wall {:.1}s viol {} err {} inconcl {}", ex.paths, ex.panics, ex.killed, ex.forks, ex.merges, ex.steps, ex.z.queries, ex.model_hits, ex.z.time, ex.t0.elapsed().as_secs_f64(), ex.viol.len(), ex.errors.len(), ex.inconclusive.len());
    for e in ex.errors.iter().take(5) { eprintln!("  error: {e}"); }
    for e in ex.inconclusive.iter().take(5) { eprintln!("  inconclusive: {e}"); }
    for v in ex.viol.iter() { eprintln!("  violation: {} {} {}  [{}]", v.kind, v.id, v.desc, v.stack.join(" < ")); }
    std::process::exit(0);
}
fn main() {
    if std::env::var("SV_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|e| { eprintln!("engine failure: {:?}", e.downcast_ref::<String>()); std::process::exit(3) });
}
