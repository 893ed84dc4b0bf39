mod alloc;
#[macro_use]
mod core;
mod gen;
mod iokit;
mod props;

use crate::core::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, idx: u64) -> R {
    ctx.rng = Rng::new(mix(mix(seed, hash64(p.id.as_bytes())), idx));
    ctx.idx = idx;
    ctx.fp = 0;
    ctx.nontrivial = false;
    ctx.desc.clear();
    let run = p.run;
    let r = guarded(|| run(ctx));
    match r {
        Ok(r) => r,
        Err(m) => {
            if m.contains("HARNESS") { Err(Fail { sig: "harness-error".into(), detail: m }) }
            else { Err(Fail { sig: "panic".into(), detail: format!("the call panicked: {}", m) }) }
        }
    }
}

static CUR: AtomicU64 = AtomicU64::new(0);

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = r.split_whitespace().collect();
    v.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + v.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn worker(args: &[String]) -> i32 {
    let props = props::all();
    let id = opt(args, "--prop").unwrap();
    let p = props.iter().find(|p| p.id == id).unwrap();
    let seed: u64 = opt(args, "--seed").unwrap().parse().unwrap();
    let shard: u64 = opt(args, "--shard").unwrap().parse().unwrap();
    let total: u64 = opt(args, "--cases").unwrap().parse().unwrap();
    let first: u64 = opt(args, "--first").unwrap().parse().unwrap();
    let cap: f64 = opt(args, "--cap").unwrap().parse().unwrap();
    let thorough = opt(args, "--tier").unwrap() == "thorough";
    let dir = PathBuf::from(opt(args, "--dir").unwrap());
    let src = opt(args, "--src").unwrap();
    install_hook();
    let dict = Rc::new(Dict::load(&src));
    let mut ctx = Ctx::new(thorough, dict);
    let cur_file = std::fs::File::create(dir.join(format!("cur{}", shard))).unwrap();
    let hang_path = dir.join(format!("hang{}", shard));
    CUR.store(u64::MAX, Ordering::SeqCst);
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut base = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CUR.load(Ordering::SeqCst);
            let t = cpu_ticks();
            if c != last {
                last = c;
                base = t;
            } else if c != u64::MAX && t.saturating_sub(base) > 6000 {
                // 60 s of CPU time inside one case
                let _ = std::fs::write(&hang_path, "hang");
                std::process::exit(77);
            }
        }
    });
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut fails: Vec<(u64, Fail, String)> = vec![];
    let mut sigs: BTreeMap<String, u64> = BTreeMap::new();
    let mut capped = false;
    let mut idx = first;
    use std::os::unix::fs::FileExt;
    while idx < total {
        let _ = cur_file.write_all_at(&idx.to_le_bytes(), 0);
        CUR.store(idx, Ordering::SeqCst);
        ctx.want_desc = ctx.samples.len() < 3;
        let r = run_case(p, &mut ctx, seed, idx);
        evals += 1;
        match r {
            Ok(()) => {
                if ctx.nontrivial {
                    nontriv += 1;
                    ctx.fps.insert(ctx.fp);
                    if ctx.samples.len() < 3 && !ctx.desc.is_empty() {
                        let d: String = ctx.desc.chars().take(600).collect();
                        ctx.samples.push(format!("case {}: {}", idx, d));
                    }
                }
            }
            Err(f) => {
                let n = sigs.entry(f.sig.clone()).or_insert(0);
                *n += 1;
                if *n <= 1 { fails.push((idx, f, ctx.desc.clone())); }
                if fails.len() > 10 || sigs.values().sum::<u64>() > 100 { break; }
            }
        }
        if t0.elapsed().as_secs_f64() > cap { capped = true; break; }
        idx += N_WORKERS;
    }
    CUR.store(u64::MAX, Ordering::SeqCst);
    let mut o = String::new();
    o.push_str(&format!("E\t{}\nN\t{}\n", evals, nontriv));
    if capped { o.push_str("T\t1\n"); }
    for (k, v) in &ctx.counters { o.push_str(&format!("C\t{}\t{}\n", k, v)); }
    for s in &ctx.samples { o.push_str(&format!("S\t{}\n", jstr(s))); }
    for (i, f, d) in &fails { o.push_str(&format!("F\t{}\t{}\t{}\t{}\n", i, jstr(&f.sig), jstr(&f.detail), jstr(d))); }
    o.push_str("END\n");
    let mut fb = Vec::with_capacity(ctx.fps.len() * 8);
    for x in &ctx.fps { fb.extend_from_slice(&x.to_le_bytes()); }
    std::fs::write(dir.join(format!("fp{}", shard)), fb).unwrap();
    std::fs::write(dir.join(format!("out{}", shard)), o).unwrap();
    0
}

struct Viol { what: String, sig: String, detail: String, desc: String, idx: i64 }

fn run(args: &[String]) -> i32 {
    let props = props::all();
    let id = opt(args, "--prop").unwrap();
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let seed: u64 = opt(args, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = opt(args, "--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let verif = PathBuf::from(opt(args, "--verif").unwrap_or("/verif".into()));
    let src = opt(args, "--src").unwrap_or("/repo/src".into());
    let cases: u64 = opt(args, "--cases").and_then(|x| x.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap: f64 = opt(args, "--cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 240.0 });
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("r3dmon-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap();
    install_hook();

    let mut viols: Vec<Viol> = vec![];
    let mut known_lines: Vec<String> = vec![];
    let mut inconclusive: Vec<String> = vec![];

    // ---- probes, each in its own process
    let known = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let known_probe = |pid: &str| -> Option<String> {
        for l in known.lines() {
            let l = l.trim();
            if l.starts_with('#') || l.starts_with("fixed:") { continue; }
            if let Some(r) = l.strip_prefix(&format!("finding: property={} probe={} ", p.id, pid)) { return Some(r.to_string()); }
        }
        None
    };
    let mut probes_run = 0;
    for (pid, _) in p.probes {
        probes_run += 1;
        let out = std::process::Command::new(&exe).args(["probe", "--prop", p.id, "--probe", pid]).stderr(std::process::Stdio::null()).output();
        let out = match out { Ok(o) => o, Err(e) => { inconclusive.push(format!("probe {}: {}", pid, e)); continue; } };
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let failure: Option<(String, String)> = match out.status.code() {
            Some(0) => None,
            Some(3) => {
                let mut it = text.lines();
                Some((it.next().unwrap_or("").to_string(), it.collect::<Vec<_>>().join("\n")))
            }
            Some(77) => Some(("no-progress".into(), "60 s of CPU time without returning".into())),
            Some(c) => { inconclusive.push(format!("probe {} exit {}", pid, c)); continue; }
            None => {
                let s = out.status.signal().unwrap_or(0);
                if s == 9 { inconclusive.push(format!("probe {} killed", pid)); continue; }
                Some(("process-death".into(), format!("the process died with signal {}", s)))
            }
        };
        if let Some((sig, det)) = failure {
            if let Some(desc) = known_probe(pid) {
                known_lines.push(format!("KNOWN-FINDING: property={} {} [{}]", p.id, desc, pid));
            } else {
                viols.push(Viol { what: format!("probe:{}", pid), sig, detail: det, desc: format!("probe {}", pid), idx: -1 });
            }
        }
    }

    // ---- workload
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let (mut evals, mut nontriv, mut capped) = (0u64, 0u64, false);
    let mut fps: HashSet<u64> = HashSet::new();
    let spawn = |k: u64, first: u64| {
        std::process::Command::new(&exe)
            .args(["worker", "--prop", p.id, "--seed", &seed.to_string(), "--shard", &k.to_string(), "--cases", &cases.to_string(), "--first", &first.to_string(), "--cap", &cap.to_string(), "--tier", &tier, "--dir", dir.to_str().unwrap(), "--src", &src])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
    };
    let mut kids: Vec<(u64, std::process::Child)> = vec![];
    for k in 0..N_WORKERS {
        match spawn(k, k) { Ok(c) => kids.push((k, c)), Err(e) => inconclusive.push(format!("spawn: {}", e)) }
    }
    for (k, c) in kids.iter_mut() {
        let st = match c.wait() { Ok(s) => s, Err(e) => { inconclusive.push(format!("wait: {}", e)); continue; } };
        let cur = std::fs::read(dir.join(format!("cur{}", k))).ok().and_then(|b| b.get(0..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
        let text = std::fs::read_to_string(dir.join(format!("out{}", k))).unwrap_or_default();
        if st.code() == Some(0) && text.ends_with("END\n") {
            for l in text.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "E" => evals += f[1].parse::<u64>().unwrap_or(0),
                    "N" => nontriv += f[1].parse::<u64>().unwrap_or(0),
                    "T" => capped = true,
                    "C" => *counters.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                    "S" => if samples.len() < 6 && (samples.len() as u64) <= 1 + *k { samples.push(f[1].to_string()) },
                    "F" => {
                        let un = |s: &str| s.trim_matches('"').to_string();
                        let v = Viol { what: format!("case:{}", f[1]), sig: un(f[2]), detail: un(f[3]), desc: un(f[4]), idx: f[1].parse().unwrap_or(-1) };
                        if v.sig == "harness-error" { inconclusive.push(v.detail) } else { viols.push(v) }
                    }
                    _ => {}
                }
            }
            if let Ok(b) = std::fs::read(dir.join(format!("fp{}", k))) {
                for c in b.chunks_exact(8) { fps.insert(u64::from_le_bytes(c.try_into().unwrap())); }
            }
        } else {
            let at = cur.map(|x| x as i64).unwrap_or(-1);
            if st.code() == Some(77) {
                viols.push(Viol { what: format!("case:{}", at), sig: "no-progress".into(), detail: "more than 60 s of CPU time inside one small case: the operation does not terminate".into(), desc: String::new(), idx: at });
            } else if st.signal() == Some(9) || st.signal() == Some(15) {
                inconclusive.push(format!("worker {} was killed from outside at case {}", k, at));
            } else if st.signal().is_some() {
                viols.push(Viol { what: format!("case:{}", at), sig: "process-death".into(), detail: format!("the process died with signal {} (abort, stack overflow or refused allocation)", st.signal().unwrap()), desc: String::new(), idx: at });
            } else {
                inconclusive.push(format!("worker {} exit {:?} at case {}", k, st.code(), at));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if viols.is_empty() {
        for m in p.must_see {
            // (a slow machine that runs out of time may miss the rare ones)
            if !capped && counters.get(*m).copied().unwrap_or(0) == 0 { inconclusive.push(format!("nothing observed for '{}'", m)); }
        }
        if fps.is_empty() { inconclusive.push("no non-trivial case".into()); }
    }

    // ---- evidence
    let wall = t0.elapsed().as_secs_f64();
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let mut e = String::new();
    e.push_str(&format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n", jstr(p.id), jstr(&tier), seed, jstr(p.level)));
    e.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"nontrivial_cases\": {},\n    \"rule\": {},\n", evals, fps.len(), nontriv, jstr(p.rule)));
    e.push_str(&format!("    \"regression_probes_run\": {},\n    \"time_capped\": {},\n", probes_run, capped));
    e.push_str("    \"observed\": {");
    let mut firstc = true;
    for (k, v) in &counters { if !firstc { e.push(','); } firstc = false; e.push_str(&format!("\n      {}: {}", jstr(k), v)); }
    e.push_str("\n    },\n    \"known_findings_reproduced\": [");
    e.push_str(&known_lines.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    e.push_str("],\n    \"samples\": [");
    e.push_str(&samples.iter().map(|s| format!("\n      {}", s)).collect::<Vec<_>>().join(","));
    e.push_str("\n    ]\n  },\n");
    e.push_str(&format!("  \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, viols.len()));
    if !args.iter().any(|a| a == "--no-evidence") {
        if let Err(err) = std::fs::write(verif.join("evidence").join(format!("{}.json", p.id)), e) { inconclusive.push(format!("evidence: {}", err)); }
    }
    for l in &known_lines { println!("{}", l); }
    println!("{}: {} cases, {} distinct non-trivial, {} probes, {:.1} s", p.id, evals, fps.len(), probes_run, wall);
    if args.iter().any(|a| a == "--counters") { for (k, v) in &counters { println!("  {:50} {}", k, v); } for s in &samples { println!("  {}", s); } }
    if !viols.is_empty() {
        let rd = verif.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let mut seen: HashSet<String> = HashSet::new();
        for v in &viols {
            if !seen.insert(v.sig.clone()) && seen.len() > 0 { continue; }
            let name = format!("{}-{}-{}.json", p.id, seed, v.what.replace(':', "-"));
            let path = rd.join(&name);
            let body = format!("{{\"property\": {}, \"seed\": {}, \"tier\": {}, \"what\": {}, \"case\": {}, \"sig\": {}, \"detail\": {}, \"input\": {}, \"replay_cmd\": {}}}\n", jstr(p.id), seed, jstr(&tier), jstr(&v.what), v.idx, jstr(&v.sig), jstr(&v.detail), jstr(&v.desc), jstr(&format!("r3dmon replay {}", path.display())));
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            println!("  [{}] {} {}", v.what, v.sig, v.detail.chars().take(1500).collect::<String>());
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        for i in inconclusive { println!("INCONCLUSIVE: {}", i); }
        return 2;
    }
    0
}

fn probe(args: &[String]) -> i32 {
    install_hook();
    let props = props::all();
    let id = opt(args, "--prop").unwrap();
    let pid = opt(args, "--probe").unwrap();
    let p = props.iter().find(|p| p.id == id).unwrap();
    let (_, f) = match p.probes.iter().find(|(n, _)| *n == pid) { Some(x) => x, None => return 2 };
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if cpu_ticks() > 6000 { std::process::exit(77); }
    });
    match guarded(|| f()) {
        Ok(Ok(())) => 0,
        Ok(Err(f)) => { println!("{}\n{}", f.sig, f.detail); 3 }
        Err(m) => { println!("panic\n{}", m); 3 }
    }
}

fn replay(args: &[String]) -> i32 {
    install_hook();
    let path = &args[0];
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let pat = format!("\"{}\": ", k);
        let i = t.find(&pat).map(|i| i + pat.len()).unwrap_or(0);
        let r = &t[i..];
        if r.starts_with('"') { r[1..].split('"').next().unwrap_or("").to_string() } else { r.split(|c| c == ',' || c == '}').next().unwrap_or("").to_string() }
    };
    let id = get("property");
    let seed: u64 = get("seed").parse().unwrap_or(1);
    let what = get("what");
    let props = props::all();
    let p = props.iter().find(|p| p.id == id).expect("property");
    if let Some(pid) = what.strip_prefix("probe:") {
        return probe(&["--prop".into(), id.clone(), "--probe".into(), pid.to_string()]);
    }
    let idx: u64 = get("case").parse().unwrap_or(0);
    let mut ctx = Ctx::new(get("tier") == "thorough", Rc::new(Dict::load("/repo/src")));
    ctx.want_desc = true;
    match run_case(p, &mut ctx, seed, idx) {
        Ok(()) => { println!("case {} holds: {}", idx, ctx.desc); 0 }
        Err(f) => { println!("case {} violates {}: {} {}\ninput: {}", idx, id, f.sig, f.detail, ctx.desc); 1 }
    }
}

/// in-process run for the interpreter: functional findings are left to the other checks, only
/// undefined behaviour (reported by the interpreter itself) and the events are of interest
fn local(args: &[String]) -> i32 {
    install_hook();
    let props = props::all();
    let seed: u64 = opt(args, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let shard: u64 = opt(args, "--shard").and_then(|x| x.parse().ok()).unwrap_or(0);
    let secs: f64 = opt(args, "--cap").and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let max: u64 = opt(args, "--cases").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let only = opt(args, "--prop");
    let mut ctx = Ctx::new(false, Rc::new(Dict::default()));
    ctx.tiny = true;
    let t0 = Instant::now();
    let misuse = [props::safety::misuse_prop(), props::safety::misuse_prop()];
    let todo: Vec<&Prop> = misuse.iter().chain(props.iter()).filter(|p| p.id != "C27" && only.as_deref().map(|o| o == p.id).unwrap_or(true)).collect();
    let (mut n, mut per, mut panics) = (0u64, BTreeMap::new(), 0u64);
    // equal shares of the time: the property that had the least so far is next
    let mut spent = vec![(0f64, 0u64); todo.len()];
    loop {
        let k = (0..todo.len()).min_by(|a, b| spent[*a].0.partial_cmp(&spent[*b].0).unwrap()).unwrap();
        let (p, t) = (todo[k], t0.elapsed().as_secs_f64());
        let idx = 1_000_000_007 * (1 + shard) + spent[k].1;
        // the last line before a report tells the case
        println!("CASE {} {} {} {:.1}", p.id, seed, idx, t);
        if let Err(f) = run_case(p, &mut ctx, seed, idx) { if f.sig == "panic" { panics += 1; } }
        spent[k].0 += (t0.elapsed().as_secs_f64() - t).max(1e-3);
        spent[k].1 += 1;
        n += 1;
        *per.entry(p.id).or_insert(0u64) += 1;
        if n >= max || t0.elapsed().as_secs_f64() > secs { break; }
    }
    println!("LOCAL {} cases, {} distinct, {} panics, {:?}", n, ctx.fps.len(), panics, per);
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rc = match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("local") => local(&args[1..]),
        Some("probe") => probe(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("list") => { for p in props::all() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: r3dmon run|replay|list"); 2 }
    };
    std::process::exit(rc);
}
