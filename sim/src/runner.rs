//! Search driver: seeded runs in worker processes, minimisation, replay, evidence.
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// stable label of what failed (matched against known findings)
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub trace: u64,
    pub keep_log: bool,
    pub log: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += v;
        }
    }
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.sets.entry(k.to_string()).or_default().insert(v);
    }
    /// every observable step of a run goes into its trace
    pub fn ev(&mut self, s: impl AsRef<str>) {
        self.trace = mix2(self.trace, hstr(s.as_ref()));
        if self.keep_log {
            self.log.push(s.as_ref().to_string());
        }
    }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// runs of one tier (an upper bound; the wall-clock cap may end it earlier)
    fn runs(&self, t: Tier) -> u64;
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value;
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol>;
    fn shrink(&self, plan: &Value) -> Vec<Value>;
    fn rule(&self) -> String;
    fn components(&self) -> Value;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// address-space limit of a worker, in MiB
    fn mem(&self) -> u64 {
        3500
    }
}

extern "C" {
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}

fn run_once(c: &dyn Check, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    st.trace = 0x7261_6365;
    match catch(|| c.exec(plan, st)) {
        Ok(r) => r,
        // a panic inside the code under test where the harness expected a result
        Err(m) if !m.starts_with("src/") => viol(format!("panic in {}", panic_site(&m)), format!("unexpected panic: {}", m)),
        // the simulator relied on something the code under test always does (it never happens on
        // code that has the property, so it is a failure of the code, not of the plan)
        Err(m) => viol(format!("expectation failed in {}", panic_site(&m)), m),
    }
}

/// Greedy minimisation: keep any smaller plan that still fails in the same class.
pub fn minimise(c: &dyn Check, plan: Value, v: Viol, budget: Duration) -> (Value, Viol, u64) {
    let t0 = Instant::now();
    let (mut plan, mut v) = (plan, v);
    let mut tried = 0;
    'again: loop {
        for cand in c.shrink(&plan) {
            if t0.elapsed() > budget {
                break 'again;
            }
            tried += 1;
            let mut st = Stats::default();
            if let Err(v2) = run_once(c, &cand, &mut st) {
                if v2.class == v.class {
                    plan = cand;
                    v = v2;
                    continue 'again;
                }
            }
        }
        break;
    }
    (plan, v, tried)
}

pub fn worker(c: &dyn Check, seed: u64, tier: Tier, start: u64, step: u64, end: u64, cap: f64) {
    unsafe {
        let l = c.mem() << 20;
        setrlimit(9, &[l, l]);
        setrlimit(4, &[0, 0]);
    }
    let known: BTreeSet<String> =
        serde_json::from_str(&std::env::var("DST_KNOWN").unwrap_or_else(|_| "[]".into())).unwrap_or_default();
    let out = std::io::stdout();
    let say = |v: Value| {
        let mut o = out.lock();
        let _ = writeln!(o, "{}", v);
        let _ = o.flush();
    };
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut k = start;
    while k < end && t0.elapsed().as_secs_f64() < cap {
        say(json!({"t":"start","k":k}));
        let plan = c.plan(mix2(seed, hstr(c.id())), k, tier);
        let before = st.n.get("judged").cloned().unwrap_or(0);
        let r = run_once(c, &plan, &mut st);
        st.inc("runs");
        let tr = st.trace;
        st.set("traces", tr);
        if st.n.get("judged").cloned().unwrap_or(0) > before {
            st.set("nontrivial", tr);
        }
        if k % 24 == 0 && r.is_ok() {
            // the same plan must give the same execution
            let mut s2 = Stats::default();
            let r2 = run_once(c, &plan, &mut s2);
            st.inc("determinism_replays");
            if s2.trace != tr || r2.is_err() {
                st.inc("determinism_mismatches");
                say(json!({"t":"nondet","k":k}));
            }
        }
        if k == start && k < 3 {
            let mut s2 = Stats { keep_log: true, ..Default::default() };
            let _ = run_once(c, &plan, &mut s2);
            s2.log.truncate(60);
            say(json!({"t":"sample","v":{"run":k,"plan":plan,"trace":s2.log}}));
        }
        if let Err(v) = r {
            if known.contains(&v.class) {
                say(json!({"t":"known","class":v.class,"msg":v.msg}));
            } else {
                let (p, v, tried) = minimise(c, plan, v, Duration::from_secs(45));
                let mut s2 = Stats { keep_log: true, ..Default::default() };
                let r1 = run_once(c, &p, &mut s2);
                let same = r1 == Err(v.clone());
                say(json!({"t":"viol","k":k,"plan":p,"v":v,"tried":tried,"reproduced":same,"trace":s2.log,"digest":format!("{:016x}",s2.trace)}));
                break;
            }
        }
        k += step;
    }
    let sets: BTreeMap<&String, Vec<String>> =
        st.sets.iter().map(|(k, v)| (k, v.iter().map(|x| format!("{:x}", x)).collect())).collect();
    say(json!({"t":"end","n":st.n,"sets":sets}));
}

struct Slot {
    child: std::process::Child,
    last: u64,
    at: Instant,
    done: bool,
    restarts: u32,
}

pub fn parent(c: &dyn Check, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let verif = std::env::var("DST_VERIF").unwrap_or_else(|_| "/verif".into());
    let runs = std::env::var("DST_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| c.runs(tier));
    let cap: f64 = std::env::var("DST_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240.0,
        Tier::Thorough => 780.0,
    });
    let nw = std::env::var("DST_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64).min(runs.max(1));
    let kf: Value = std::fs::read_to_string(format!("{}/known_findings.json", verif))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({"findings":[]}));
    let known: Vec<(String, String)> = kf["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == c.id())
                .map(|f| {
                    (f["class"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string())
                })
                .collect()
        })
        .unwrap_or_default();
    let classes: Vec<&String> = known.iter().map(|x| &x.0).collect();
    let exe = std::env::current_exe().expect("own path");
    let (tx, rx) = mpsc::channel::<(u64, Option<Value>)>();
    let spawn = |w: u64, from: u64, left: f64| {
        let mut ch = Command::new(&exe)
            .args(["worker", c.id(), if tier == Tier::Quick { "quick" } else { "thorough" }])
            .args([seed.to_string(), from.to_string(), nw.to_string(), runs.to_string(), format!("{:.1}", left)])
            .env("DST_KNOWN", serde_json::to_string(&classes).unwrap())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if let Ok(v) = serde_json::from_str::<Value>(&l) {
                            let _ = tx.send((w, Some(v)));
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((w, None));
        });
        ch
    };
    let mut slots: Vec<Slot> = (0..nw)
        .map(|w| Slot { child: spawn(w, w, cap), last: w, at: Instant::now(), done: false, restarts: 0 })
        .collect();
    let mut n: BTreeMap<String, u64> = Default::default();
    let mut sets: BTreeMap<String, HashSet<String>> = Default::default();
    let mut samples: Vec<Value> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut knowns: BTreeMap<String, (u64, String)> = Default::default();
    let mut broken: Option<String> = None;
    let mut kill_at: Option<Instant> = None;
    loop {
        if slots.iter().all(|s| s.done) {
            break;
        }
        if let Ok((w, m)) = rx.recv_timeout(Duration::from_millis(500)) {
            let s = &mut slots[w as usize];
            match m {
                Some(v) => match v["t"].as_str().unwrap_or("") {
                    "start" => {
                        s.last = v["k"].as_u64().unwrap_or(0);
                        s.at = Instant::now();
                    }
                    "sample" => samples.push(v["v"].clone()),
                    "known" => {
                        let e = knowns
                            .entry(v["class"].as_str().unwrap_or("").into())
                            .or_insert((0, v["msg"].as_str().unwrap_or("").into()));
                        e.0 += 1;
                    }
                    "viol" => {
                        viols.push(v);
                        // let the others finish their current run, then stop
                        kill_at.get_or_insert(Instant::now() + Duration::from_secs(8));
                    }
                    "end" => {
                        s.done = true;
                        if let Some(o) = v["n"].as_object() {
                            for (k, x) in o {
                                *n.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                        }
                        if let Some(o) = v["sets"].as_object() {
                            for (k, x) in o {
                                sets.entry(k.clone()).or_default().extend(
                                    x.as_array().into_iter().flatten().filter_map(|y| y.as_str().map(String::from)),
                                );
                            }
                        }
                    }
                    _ => {}
                },
                None => {
                    let st = s.child.wait().ok();
                    if !s.done {
                        let code = st.and_then(|x| x.code());
                        if code == Some(3) {
                            broken = Some(format!("harness error in run {}", s.last));
                            s.done = true;
                        } else if kill_at.is_none() {
                            // the process died inside the code under test
                            use std::os::unix::process::ExitStatusExt;
                            let sig = st.and_then(|x| x.signal()).unwrap_or(0);
                            let plan = c.plan(mix2(seed, hstr(c.id())), s.last, tier);
                            viols.push(json!({"t":"viol","k":s.last,"plan":plan,"died":true,
                                "v":{"class":format!("process-died signal {} code {:?}",sig,code),
                                "msg":"the process running the code under test was terminated (abort, out of memory or stack overflow)"}}));
                            s.restarts += 1;
                            s.done = true;
                            kill_at.get_or_insert(Instant::now() + Duration::from_secs(8));
                        } else {
                            s.done = true;
                        }
                    }
                }
            }
        }
        for s in slots.iter_mut() {
            if s.done {
                continue;
            }
            let hung = s.at.elapsed() > Duration::from_secs(150) && kill_at.is_none();
            if hung {
                let _ = s.child.kill();
                s.done = true;
                let plan = c.plan(mix2(seed, hstr(c.id())), s.last, tier);
                viols.push(json!({"t":"viol","k":s.last,"plan":plan,"died":true,
                    "v":{"class":"hang","msg":"a run made no progress for 150 s"}}));
                kill_at.get_or_insert(Instant::now());
            }
            if let Some(k) = kill_at {
                // a worker that is minimising its own violation gets its time
                if Instant::now() > k {
                    let _ = s.child.kill();
                    s.done = true;
                }
            }
        }
    }
    for s in slots.iter_mut() {
        let _ = s.child.kill();
        let _ = s.child.wait();
    }
    let wall = t0.elapsed().as_secs_f64();
    for (cl, what) in &known {
        println!("KNOWN-FINDING: property={} {} (met {} times in this run)", c.id(), what, knowns.get(cl).map(|x| x.0).unwrap_or(0));
    }
    // a violation found in several workers is reported once per class
    let mut seen = BTreeSet::new();
    let mut paths = vec![];
    for v in &viols {
        let cl = v["v"]["class"].as_str().unwrap_or("").to_string();
        if !seen.insert(cl.clone()) {
            continue;
        }
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-s{}-r{}.json", dir, c.id(), seed, v["k"]);
        let rep = json!({"property":c.id(),"seed":seed,"run":v["k"],"violation":v["v"],"plan":v["plan"],
            "trace":v["trace"],"digest":v["digest"],"minimiser_steps":v["tried"],"reproduced_in_process":v["reproduced"],
            "process_died":v["died"]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("  {}: {}", cl, v["v"]["msg"].as_str().unwrap_or("").chars().take(700).collect::<String>());
        println!("VIOLATION property={} replay={}", c.id(), path);
        paths.push(path);
    }
    let g = |k: &str| n.get(k).cloned().unwrap_or(0);
    let pre = |p: &str| -> Value {
        Value::Object(
            n.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), json!(v))).collect(),
        )
    };
    let total = g("runs");
    let setn = |k: &str| sets.get(k).map(|s| s.len()).unwrap_or(0);
    let distinct: Value = Value::Object(sets.iter().map(|(k, v)| (k.clone(), json!(v.len()))).collect());
    let ev = json!({
        "property": c.id(), "tier": if tier==Tier::Quick {"quick"} else {"thorough"}, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "judged_events": g("judged"),
            "distinct_nontrivial": setn("nontrivial"),
            "rule": c.rule(),
            "samples": samples,
            "runs_per_hour": (total as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": g("sim_ms") as f64 / 1000.0,
            "faults_injected": pre("fault."),
            "events": pre("event."),
            "verdicts": pre("verdict."),
            "by_component": pre("sys."),
            "scheduler": pre("sched."),
            "probes": pre("probe."),
            "distinct": distinct,
            "determinism": {"plans_executed_twice": g("determinism_replays"), "mismatches": g("determinism_mismatches")},
            "components": c.components(),
            "workers": nw,
        },
        "assumptions": c.assumptions(),
        "wall_s": wall,
        "violations": paths.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let _ = std::fs::write(
        format!("{}/evidence/{}.json", verif, c.id()),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
    println!(
        "{} {:?}: {} runs, {} judged events, {} distinct, {:.0}s, {} violation(s)",
        c.id(), tier, total, g("judged"), setn("nontrivial"), wall, paths.len()
    );
    if !paths.is_empty() {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("{}", b);
        return 2;
    }
    if total == 0 || g("judged") == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    0
}

pub fn replay(checks: &[&dyn Check], path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let c = match checks.iter().find(|c| c.id() == id) {
        Some(c) => *c,
        None => {
            eprintln!("no check {}", id);
            return 2;
        }
    };
    let mut st = Stats { keep_log: true, ..Default::default() };
    let r = run_once(c, &v["plan"], &mut st);
    for l in &st.log {
        println!("{}", l);
    }
    println!("digest {:016x} (recorded {})", st.trace, v["digest"].as_str().unwrap_or("-"));
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(x) => {
            println!("{}: {}", x.class, x.msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
