//! rsym: symbolic execution of rustc-produced LLVM IR with Z3.
mod exec;
mod expr;
mod ll;
mod z3;
use exec::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Pool {
    q: Mutex<VecDeque<Job>>,
    cv: Condvar,
    idle: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
    viols: AtomicU64,
    errors: Mutex<Vec<String>>,
    error_inputs: Mutex<Vec<(String, Vec<u8>)>>,
    /// native program and harness name: a violation it confirms ends the run
    confirm: Option<(String, String)>,
    confirmed: AtomicBool,
}

/// Does the native program fail on this input (not a violated assumption)?
fn confirms(exe: &str, h: &str, input: &[u8]) -> bool {
    use std::process::{Command, Stdio};
    for _ in 0..4 {
        let Ok(mut c) = Command::new(exe).arg(h).arg(hex(input)).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else { return false };
        let t = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(s)) => {
                    if !s.success() {
                        return s.code() != Some(3);
                    }
                    break;
                }
                Ok(None) if t.elapsed() > Duration::from_secs(5) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return false;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(2)),
                Err(_) => return false,
            }
        }
    }
    false
}

struct Res {
    stats: Stats,
    viols: Vec<Violation>,
    samples: Vec<Sample>,
    covers: HashMap<String, u64>,
    used: Vec<bool>,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    cache: u64,
    time: f64,
    maxq: f64,
    nodes: u64,
    forks: HashMap<(u32, u32), u64>,
}

fn worker(sh: &'static Shared, func: u32, pool: &Pool, n: usize, deadline: Instant, qms: u32, scap: usize, max_viol: u64, max_steps: u64) -> Res {
    let mut m = Machine::new(sh, qms);
    m.sample_cap = scap;
    m.max_steps = max_steps;
    'outer: loop {
        if pool.stop.load(SeqCst) {
            break;
        }
        let st = match m.stack.pop() {
            Some(s) => s,
            None => {
                let mut q = pool.q.lock().unwrap();
                loop {
                    if pool.stop.load(SeqCst) {
                        break 'outer;
                    }
                    if let Some(j) = q.pop_front() {
                        pool.qlen.store(q.len(), SeqCst);
                        drop(q);
                        break m.start(func, vec![], Some(j));
                    }
                    let i = pool.idle.fetch_add(1, SeqCst) + 1;
                    if i == n {
                        pool.stop.store(true, SeqCst);
                        pool.cv.notify_all();
                        break 'outer;
                    }
                    q = pool.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    if pool.stop.load(SeqCst) {
                        break 'outer;
                    }
                    pool.idle.fetch_sub(1, SeqCst);
                }
            }
        };
        // share work
        while pool.idle.load(SeqCst) > pool.qlen.load(SeqCst) && m.stack.len() >= 1 {
            let s = m.stack.remove(0);
            let j = Machine::job_of(&s);
            let mut q = pool.q.lock().unwrap();
            q.push_back(j);
            pool.qlen.store(q.len(), SeqCst);
            pool.cv.notify_one();
        }
        let nv = m.viols.len();
        let (end, st) = m.run(st);
        if let End::Error(e) = &end {
            let mut es = pool.errors.lock().unwrap();
            es.push(format!("{} [in {}]", e, m.where_(&st)));
            pool.error_inputs.lock().unwrap().push((e.clone(), m.input_of(&st)));
            if es.len() >= 64 {
                pool.stop.store(true, SeqCst);
                pool.cv.notify_all();
            }
        }
        m.finish_path(&end, &st);
        if let Some((exe, h)) = &pool.confirm {
            if m.viols[nv..].iter().any(|v| confirms(exe, h, &v.input)) {
                pool.confirmed.store(true, SeqCst);
                pool.stop.store(true, SeqCst);
                pool.cv.notify_all();
            }
        }
        pool.viols.store(pool.viols.load(SeqCst).max(m.viols.len() as u64), SeqCst);
        if pool.viols.load(SeqCst) >= max_viol {
            pool.stop.store(true, SeqCst);
            pool.cv.notify_all();
        }
        if Instant::now() > deadline {
            pool.errors.lock().unwrap().push("time limit".into());
            pool.stop.store(true, SeqCst);
            pool.cv.notify_all();
        }
    }
    Res {
        stats: m.stats.clone(),
        viols: std::mem::take(&mut m.viols),
        samples: std::mem::take(&mut m.samples),
        covers: std::mem::take(&mut m.covers),
        used: std::mem::take(&mut m.used),
        queries: m.ar.queries,
        sat: m.ar.sat,
        unsat: m.ar.unsat,
        unknown: m.ar.unknown,
        cache: m.ar.cache_hits,
        time: m.ar.solver_time,
        maxq: m.ar.max_query,
        nodes: m.ar.nodes.len() as u64,
        forks: std::mem::take(&mut m.fork_at),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harn: Vec<String> = vec![];
    let mut threads = 8usize;
    let mut time = 600f64;
    let mut out = String::new();
    let mut qms = 60_000u32;
    let mut scap = 5usize;
    let mut maxv = 5u64;
    let mut max_steps = 200_000_000u64;
    let mut verbose = false;
    let mut total = 1e6f64;
    let mut exe = String::new();
    let mut keep_going: Vec<String> = vec![];
    let mut confirmed = false;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--ll" => ll = nx(),
            "--harness" => harn = nx().split(',').map(|s| s.to_string()).collect(),
            "--threads" => threads = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--total" => total = nx().parse().unwrap(),
            "--confirm" => exe = nx(),
            "--findings" => keep_going = nx().split(',').map(|s| s.to_string()).collect(),
            "--out" => out = nx(),
            "--query-ms" => qms = nx().parse().unwrap(),
            "--samples" => scap = nx().parse().unwrap(),
            "--max-violations" => maxv = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "-v" => verbose = true,
            _ => panic!("unknown argument {}", a),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let prog = match ll::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let bad: Vec<String> = prog.funcs.iter().filter_map(|f| f.err.as_ref().map(|e| format!("{}: {}", f.name, e))).collect();
    if verbose {
        eprintln!("parsed {} functions ({} unsupported) in {:.2}s", prog.funcs.len(), bad.len(), parse_s);
        for b in bad.iter().take(10) {
            eprintln!("  {}", &b[..b.len().min(300)]);
        }
    }
    let sh: &'static Shared = Box::leak(Box::new(Shared::new(prog, threads)));
    let mut json = String::new();
    let _ = write!(json, "{{\"parse_seconds\":{:.3},\"ir_functions\":{},\"unsupported_functions\":{},\"harnesses\":[", parse_s, sh.prog.funcs.len(), bad.len());
    let mut inconclusive = false;
    let mut violated = false;
    for (hi, h) in harn.iter().enumerate() {
        if confirmed {
            break;
        }
        let t1 = Instant::now();
        let func = match sh.prog.fidx.get(h) {
            Some(f) => *f,
            None => {
                eprintln!("no harness function {}", h);
                std::process::exit(3);
            }
        };
        let pool = Pool {
            q: Mutex::new(VecDeque::from(vec![Job { events: vec![], model: vec![] }])),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            qlen: AtomicUsize::new(1),
            stop: AtomicBool::new(false),
            viols: AtomicU64::new(0),
            errors: Mutex::new(vec![]),
            error_inputs: Mutex::new(vec![]),
            confirm: (!exe.is_empty() && !keep_going.contains(h)).then(|| (exe.clone(), h.clone())),
            confirmed: AtomicBool::new(false),
        };
        let deadline = (t1 + Duration::from_secs_f64(time)).min(t0 + Duration::from_secs_f64(total));
        let rs: Vec<Res> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let p = &pool;
                    std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, move || worker(sh, func, p, threads, deadline, qms, scap, maxv, max_steps)).unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let wall = t1.elapsed().as_secs_f64();
        confirmed |= pool.confirmed.load(SeqCst);
        let errors = pool.errors.into_inner().unwrap();
        let error_inputs = pool.error_inputs.into_inner().unwrap();
        let mut s = Stats::default();
        let (mut q, mut sat, mut unsat, mut unk, mut cache, mut st, mut mq, mut nodes) = (0, 0, 0, 0, 0, 0f64, 0f64, 0);
        let mut used = vec![false; sh.prog.funcs.len()];
        let mut covers: HashMap<String, u64> = HashMap::new();
        let mut forks: HashMap<(u32, u32), u64> = HashMap::new();
        for r in &rs {
            s.paths += r.stats.paths;
            s.assumed += r.stats.assumed;
            s.expected_panics += r.stats.expected_panics;
            s.forks += r.stats.forks;
            s.instrs += r.stats.instrs;
            s.asserts += r.stats.asserts;
            s.asserts_solver += r.stats.asserts_solver;
            s.concretized += r.stats.concretized;
            s.summaries_used += r.stats.summaries_used;
            s.max_events = s.max_events.max(r.stats.max_events);
            s.max_steps = s.max_steps.max(r.stats.max_steps);
            q += r.queries;
            sat += r.sat;
            unsat += r.unsat;
            unk += r.unknown;
            cache += r.cache;
            st += r.time;
            mq = mq.max(r.maxq);
            nodes += r.nodes;
            for (i, u) in r.used.iter().enumerate() {
                used[i] |= u;
            }
            for (k, v) in &r.covers {
                *covers.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.forks {
                *forks.entry(*k).or_insert(0) += v;
            }
        }
        if !errors.is_empty() {
            inconclusive = true;
        }
        let nv: usize = rs.iter().map(|r| r.viols.len()).sum();
        if nv > 0 {
            violated = true;
        }
        if verbose {
            eprintln!(
                "{}: paths={} assumed={} forks={} conc={} instrs={} asserts={} queries={} (sat {} unsat {}) cache={} solver={:.2}s maxq={:.3}s nodes={} wall={:.2}s viols={} maxsteps={} errors={:?}",
                h, s.paths, s.assumed, s.forks, s.concretized, s.instrs, s.asserts, q, sat, unsat, cache, st, mq, nodes, wall, nv, s.max_steps, errors
            );
            let mut fk: Vec<_> = forks.iter().collect();
            fk.sort_by(|a, b| b.1.cmp(a.1));
            for ((f, b), n) in fk.iter().take(12) {
                eprintln!("   forks {} at {} bb{}", n, sh.prog.funcs[*f as usize].name, b);
            }
            for r in &rs {
                for v in &r.viols {
                    eprintln!("   VIOL {} {} input={} stack={:?}", v.kind, v.msg, hex(&v.input), &v.stack[..v.stack.len().min(6)]);
                }
            }
        }
        if hi > 0 {
            json.push(',');
        }
        let _ = write!(
            json,
            "{{\"name\":{},\"paths\":{},\"assumed_away\":{},\"expected_panics\":{},\"forks\":{},\"concretizations\":{},\"instructions\":{},\"assertions_checked\":{},\"assertions_by_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_seconds\":{:.4},\"max_query_seconds\":{:.4},\"expr_nodes\":{},\"max_decisions\":{},\"max_path_instructions\":{},\"table_summaries_used\":{},\"wall_seconds\":{:.3}",
            js(h), s.paths, s.assumed, s.expected_panics, s.forks, s.concretized, s.instrs, s.asserts, s.asserts_solver, q, sat, unsat, unk, cache, st, mq, nodes, s.max_events, s.max_steps, s.summaries_used, wall
        );
        json.push_str(",\"errors\":[");
        json.push_str(&errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
        json.push_str("],\"error_inputs\":[");
        json.push_str(&error_inputs.iter().map(|(e, i)| format!("{{\"msg\":{},\"input\":\"{}\"}}", js(e), hex(i))).collect::<Vec<_>>().join(","));
        json.push_str("],\"covers\":{");
        let mut cv: Vec<_> = covers.iter().collect();
        cv.sort();
        json.push_str(&cv.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        json.push_str("},\"functions\":[");
        json.push_str(&used.iter().enumerate().filter(|(_, u)| **u).map(|(i, _)| js(&sh.prog.funcs[i].name)).collect::<Vec<_>>().join(","));
        json.push_str("],\"violations\":[");
        let mut first = true;
        for r in &rs {
            for v in &r.viols {
                if !first {
                    json.push(',');
                }
                first = false;
                let _ = write!(json, "{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"stack\":[{}]}}", js(&v.kind), js(&v.msg), hex(&v.input), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
            }
        }
        json.push_str("],\"samples\":[");
        let mut first = true;
        for r in &rs {
            for v in &r.samples {
                if !first {
                    json.push(',');
                }
                first = false;
                let _ = write!(json, "{{\"input\":\"{}\",\"obs\":[{}],\"end\":{}}}", hex(&v.input), v.obs.iter().map(|o| format!("\"{}\"", o)).collect::<Vec<_>>().join(","), js(&v.end));
            }
        }
        json.push_str("]}");
    }
    json.push_str("]}\n");
    if !out.is_empty() {
        std::fs::write(&out, &json).expect("write output");
    }
    std::process::exit(if violated {
        1
    } else if inconclusive {
        2
    } else {
        0
    });
}
