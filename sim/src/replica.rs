//! C12: replicas of one deployment.  The reference replica is the single-threaded build (another
//! process running the same simulator); the others run the multi-threaded build under seeded task
//! schedules and pool sizes.  Every replica must produce the same bytes and verdicts.
use crate::circ::*;
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::gkr::*;
use crate::schemes::plonk::{plonk_srs, Plonk, PLONK_DEG};
use crate::schemes::r1cs::*;
use crate::schemes::*;
use crate::util::*;
use crate::world::Sched;
use ark_bls12_381::{Bls12_381 as B, Fr};
use ark_ff::{One, UniformRand};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use zkp_curve25519::Curve25519 as C;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    sys: String,
    sh: Value,
    seed: u64,
}
pub type Out = Vec<(String, String)>;

/// what the parts of a context that have no encoding look like
pub trait Extra: Scheme {
    fn warm(_seed: u64) {}
    fn extra(_pk: &Self::Pk) -> String {
        String::new()
    }
    fn size(sh: &mut Self::Sh, r: &mut Rg, t: Tier);
}
fn cons(sh: &mut Shape, r: &mut Rg, t: Tier, top: usize) {
    let big = if t == Tier::Thorough { top * 3 } else { top };
    sh.cons = match r.below(6) {
        0 => r.range(1, 3),
        1 => *r.pick(&[4usize, 7, 8, 9, 15, 16, 17]),
        2 => *r.pick(&[31usize, 32, 33]),
        _ => r.range(3, big),
    }
    .min(big);
    if r.pct(30) {
        sh.max_pub = r.range(0, 20);
    }
}
impl Extra for Groth16 {
    fn size(sh: &mut Shape, r: &mut Rg, t: Tier) {
        cons(sh, r, t, 90)
    }
}
impl Extra for Marlin {
    fn warm(seed: u64) {
        marlin_srs(seed, MARLIN_DEG);
    }
    fn extra(pk: &MarlinPk) -> String {
        let i = format!("{:?} {:?}", pk.ipk.index, pk.ipk.index_rands);
        format!("{:016x} {:016x}", hstr(&i), fnv(&enc(&pk.ipk.committer_key)))
    }
    fn size(sh: &mut Shape, r: &mut Rg, t: Tier) {
        cons(sh, r, t, 24);
        sh.lc = sh.lc.min(4)
    }
}
impl Extra for Plonk {
    fn warm(seed: u64) {
        plonk_srs(seed, PLONK_DEG);
    }
    fn size(sh: &mut Self::Sh, r: &mut Rg, t: Tier) {
        sh.gates = match r.below(6) {
            0 => r.range(1, 3),
            1 => *r.pick(&[4usize, 7, 8, 9, 15, 16, 17]),
            2 => *r.pick(&[31usize, 32, 33, 63, 64, 65]),
            _ => r.range(3, if t == Tier::Thorough { 110 } else { 60 }),
        };
        sh.free = r.range(1, 9);
    }
}
macro_rules! plain {
    ($n:ident, $top:expr) => {
        impl<G: CurveName> Extra for $n<G> {
            fn size(sh: &mut Shape, r: &mut Rg, t: Tier) {
                cons(sh, r, t, $top);
                sh.lc = sh.lc.min(4)
            }
        }
    };
}
plain!(Bp, 14);
plain!(SpSnark, 8);
plain!(SpNizk, 14);
impl<G: CurveName> Extra for Libra<G> {
    fn size(_: &mut GSh, _: &mut Rg, _: Tier) {}
}
impl<G: CurveName> Extra for LibraZk<G> {
    fn size(_: &mut GSh, _: &mut Rg, _: Tier) {}
}
impl<G: CurveName> Extra for Hyrax<G> {
    fn size(_: &mut GSh, _: &mut Rg, _: Tier) {}
}

fn note<T: std::fmt::Display, E: std::fmt::Display>(out: &mut Out, what: &str, r: Result<T, E>) {
    out.push((
        what.into(),
        match r {
            Ok(x) => format!("{}", x),
            // where it failed, not how often the caller had split the work by then
            Err(e) => format!("error {}", e),
        },
    ))
}
fn d(b: &[u8]) -> String {
    format!("{:016x}/{}", fnv(b), b.len())
}
/// Setup, proofs (honest, false, over the wrong values) and verdicts of one deployment.
fn outcome<S: Extra>(j: &Job) -> Out {
    let mut out = vec![];
    let sh: S::Sh = serde_json::from_value(j.sh.clone()).expect("shape");
    let i = S::inst(&sh);
    let mut r = Rg::new(j.seed);
    let ws = r.seed();
    let w = S::wit(&i, ws);
    let mut rng = SimRng::new(r.seed());
    let cx = match setup_caught::<S>(&i, 7, ws, &mut rng) {
        Ok(c) => c,
        Err(e) => {
            note(&mut out, "setup", Err::<u8, _>(e));
            return out;
        }
    };
    out.push(("setup".into(), format!("{} drawn", rng.bytes)));
    out.push(("verify key".into(), d(&S::vk_bytes(&cx.vk))));
    if let Some(p) = S::pk_bytes(&cx.pk) {
        out.push(("prove key".into(), d(&p)));
    }
    out.push(("prove key rest".into(), S::extra(&cx.pk)));
    if let Some(f) = &cx.first {
        out.push(("first proof".into(), d(f)));
    }
    let s = S::stmt(&i, &w);
    let mut rng = SimRng::new(r.seed());
    let p = prove_caught::<S>(&cx.pk, &i, &w, &mut rng);
    note(&mut out, "proof", p.as_ref().map(|p| format!("{} {} drawn", d(p), rng.bytes)));
    let lie = S::lie(&i, &w, r.seed());
    let q = prove_caught::<S>(&cx.pk, &i, &lie, &mut SimRng::new(r.seed()));
    note(&mut out, "proof of a changed assignment", q.as_ref().map(|p| d(p)));
    let mut see = |what: &str, s: &Stmt<S::F>, p: &[u8]| out.push((what.into(), verify_caught::<S>(&cx.vk, s, p).tag().into()));
    if let Ok(p) = &p {
        see("verdict", &s, p);
        let mut s2 = s.clone();
        if let Some(g) = s2.iter_mut().find(|g| !g.is_empty()) {
            let k = r.below(g.len());
            g[k] += <S::F as One>::one();
            see("verdict on a changed statement", &s2, p);
        }
        let mut p2 = p.clone();
        let k = r.below(p2.len());
        p2[k] ^= 1 << r.below(8);
        see("verdict on a damaged proof", &s, &p2);
    }
    if let Ok(q) = &q {
        see("verdict on the changed assignment's proof", &S::stmt(&i, &lie), q);
    }
    out
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VSh {
    n: usize,
    len: usize,
    deg: usize,
}
/// vector commitments, and the two universal setups
fn outcome_asvc(j: &Job) -> Out {
    use zkp_asvc::*;
    let mut out = vec![];
    let sh: VSh = serde_json::from_value(j.sh.clone()).expect("shape");
    let mut r = Rg::new(j.seed);
    let mut rng = SimRng::new(r.seed());
    let mut x = SimRng::new(r.seed());
    let par = match catch(|| key_gen::<B, _>(sh.n, &mut rng)) {
        Ok(Ok(p)) => p,
        e => {
            out.push(("key_gen".into(), format!("{:?}", e.map(|x| x.map(|_| ()).map_err(|_| ())))));
            return out;
        }
    };
    let pk = &par.proving_key;
    out.push(("key_gen".into(), format!("{:016x} {} drawn", fnv(&{
        let mut b = enc(&pk.powers_of_g1);
        b.extend(enc(&pk.l_of_g1));
        b.extend(enc(&pk.update_keys.iter().flat_map(|u| vec![u.ai, u.ui]).collect::<Vec<_>>()));
        b.extend(enc(&par.verification_key.powers_of_g1));
        b.extend(enc(&par.verification_key.powers_of_g2));
        b.extend(enc(&par.verification_key.a));
        b
    }), rng.bytes)));
    let v: Vec<Fr> = (0..sh.len).map(|_| Fr::rand(&mut x)).collect();
    let mut pts: Vec<u32> = (0..sh.n as u32).collect();
    r.shuffle(&mut pts);
    pts.truncate(r.range(1, sh.n));
    let c = commit::<B>(pk, v.clone());
    note(&mut out, "commit", c.as_ref().map(|c| d(&enc(&c.commit))).map_err(|e| format!("{:?}", e)));
    let p = prove_pos::<B>(pk, v.clone(), pts.clone());
    note(&mut out, "prove_pos", p.as_ref().map(|p| d(&enc(&p.w))).map_err(|e| format!("{:?}", e)));
    let omega = {
        use ark_poly::{EvaluationDomain, GeneralEvaluationDomain as D};
        match D::<Fr>::new(sh.n).expect("domain") {
            D::Radix2(r) => r.group_gen,
            D::MixedRadix(m) => m.group_gen,
        }
    };
    if let (Ok(c), Ok(p)) = (&c, &p) {
        let mut vals: Vec<Fr> = pts.iter().map(|i| v.get(*i as usize).cloned().unwrap_or_else(ark_ff::Zero::zero)).collect();
        for _ in 0..2 {
            let k = verify_pos::<B>(&par.verification_key, c, vals.clone(), pts.clone(), p, omega);
            out.push(("verify_pos".into(), format!("{:?}", k.map_err(|_| ()))));
            vals[0] += Fr::one();
        }
        let single: Vec<(u32, Proof<B>)> =
            pts.iter().filter_map(|i| prove_pos::<B>(pk, v.clone(), vec![*i]).ok().map(|p| (*i, p))).collect();
        let (a, b): (Vec<u32>, Vec<Proof<B>>) = single.into_iter().unzip();
        let g = aggregate_proofs::<B>(a, b, omega);
        note(&mut out, "aggregate", g.map(|p| d(&enc(&p.w))).map_err(|e| format!("{:?}", e)));
    }
    let mut rng = SimRng::new(r.seed());
    let u = zkp_marlin::universal_setup::<B, _>(sh.deg, &mut rng).map_err(|e| format!("{:?}", e));
    note(&mut out, "marlin universal setup", u.map(|u| {
        format!("{} {} {} {}", d(&enc(&u.powers_of_g)), d(&enc(&u.powers_of_gamma_g)), d(&enc(&u.h)), d(&enc(&u.beta_h)))
    }));
    out
}

type Entry = (&'static str, u64, fn(&mut Rg, Tier) -> Value, fn(&Job) -> Out, fn(&Value) -> Vec<Value>, fn());
fn entry<S: Extra>(w: u64) -> Entry {
    (
        S::NAME,
        w,
        |r, t| {
            let mut s = S::shape(r, true);
            S::size(&mut s, r, t);
            serde_json::to_value(s).unwrap()
        },
        outcome::<S>,
        |v| {
            let sh: S::Sh = serde_json::from_value(v.clone()).expect("shape");
            S::shrink(&sh).iter().map(|s| serde_json::to_value(s).unwrap()).collect()
        },
        || S::warm(7),
    )
}
fn entries() -> Vec<Entry> {
    vec![
        entry::<Groth16>(5),
        entry::<Marlin>(5),
        entry::<Plonk>(6),
        entry::<Bp<B>>(1),
        entry::<Bp<C>>(1),
        entry::<SpSnark<B>>(1),
        entry::<SpNizk<B>>(1),
        entry::<SpNizk<C>>(1),
        entry::<LibraZk<B>>(1),
        entry::<Hyrax<B>>(1),
        (
            "asvc and universal setup",
            2,
            |r, _| {
                let n = *r.pick(&[1usize, 2, 4, 8, 16, 32, 64]);
                serde_json::to_value(VSh { n, len: r.range(1, n), deg: *r.pick(&[1, 2, 7, 16, 33, 100]) }).unwrap()
            },
            outcome_asvc,
            |v| {
                let s: VSh = serde_json::from_value(v.clone()).expect("shape");
                let mut o = vec![];
                if s.n > 1 {
                    o.push(VSh { n: s.n / 2, len: s.len.min(s.n / 2), ..s.clone() });
                }
                if s.deg > 1 {
                    o.push(VSh { deg: s.deg / 2, ..s });
                }
                o.into_iter().map(|s| serde_json::to_value(s).unwrap()).collect()
            },
            || {},
        ),
    ]
}
fn run(j: &Job) -> Out {
    let e = entries().into_iter().find(|e| e.0 == j.sys).expect("system");
    match catch(|| (e.3)(j)) {
        Ok(o) => o,
        Err(p) => vec![("panic".into(), panic_site(&p))],
    }
}
/// The reference replica: answers jobs on standard input until it is closed.
pub fn serve() {
    let o = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let j: Job = serde_json::from_str(&l).expect("job");
        let out = run(&j);
        let mut o = o.lock();
        let _ = writeln!(o, "{}", serde_json::to_string(&out).unwrap());
        let _ = o.flush();
    }
}
struct Peer {
    _ch: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
fn reference(j: &Job) -> Result<Out, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = std::env::var("DST_SEQ").map(std::path::PathBuf::from).unwrap_or_else(|_| {
                let e = std::env::current_exe().expect("own path");
                e.parent().unwrap().parent().unwrap().parent().unwrap().join("target-seq/release/dst")
            });
            let mut ch = Command::new(&exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("{}: {}", exe.display(), e))?;
            let i = ch.stdin.take().unwrap();
            let o = BufReader::new(ch.stdout.take().unwrap());
            *p = Some(Peer { _ch: ch, i, o });
        }
        let q = p.as_mut().unwrap();
        let mut l = String::new();
        let ok = writeln!(q.i, "{}", serde_json::to_string(j).unwrap()).is_ok() && q.i.flush().is_ok() && q.o.read_line(&mut l).unwrap_or(0) > 0;
        if !ok {
            *p = None;
            return Err("the single-threaded replica died".into());
        }
        serde_json::from_str(&l).map_err(|e| e.to_string())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RPlan {
    job: Job,
    scheds: Vec<Sched>,
}
pub struct Replicas;
impl Check for Replicas {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            240
        } else {
            12000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let es = entries();
        let total: u64 = es.iter().map(|e| e.1).sum();
        let mut x = r.below(total as usize) as u64;
        let mut pick = &es[0];
        for e in &es {
            pick = e;
            if x < e.1 {
                break;
            }
            x -= e.1;
        }
        let job = Job { sys: pick.0.into(), sh: (pick.2)(&mut r, t), seed: r.seed() };
        let n = if t == Tier::Quick { 3 } else { 5 };
        let scheds = (0..n)
            .map(|_| Sched {
                seed: r.seed(),
                threads: *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 64]),
                swap: *r.pick(&[0, 30, 50, 100]),
                steal: *r.pick(&[0, 40, 100]),
            })
            .collect();
        serde_json::to_value(RPlan { job, scheds }).unwrap()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let p: RPlan = serde_json::from_value(plan.clone()).expect("plan");
        let e = entries().into_iter().find(|e| e.0 == p.job.sys).expect("system");
        st.inc(&format!("sys.{}", p.job.sys));
        let want = match reference(&p.job) {
            Ok(o) => o,
            Err(m) => return viol(format!("{}: no reference outcome", p.job.sys), m),
        };
        st.ev(format!("{} {:?}", p.job.sys, want));
        // shared universal setups are made outside the schedules
        Sched::install(&None);
        (e.5)();
        Sched::remove(st);
        for s in &p.scheds {
            Sched::install(&Some(s.clone()));
            let got = run(&p.job);
            let stats = rayon_core::sim_remove();
            st.add("sched.joins", stats.joins);
            st.add("sched.branch_swaps", stats.swapped);
            st.add("sched.steals", stats.migrated);
            if stats.joins > 0 {
                st.set("task_schedules", stats.digest);
            }
            st.inc(&format!("event.pool of {}", s.threads));
            st.ev(format!("{:?} -> {} joins, digest {:x}", s, stats.joins, stats.digest));
            for k in 0..want.len().max(got.len()) {
                st.inc("judged");
                if want.get(k) != got.get(k) {
                    let what = want.get(k).or(got.get(k)).map(|x| x.0.clone()).unwrap_or_default();
                    return viol(
                        format!("{}: {} depends on the schedule", p.job.sys, what),
                        format!("single-threaded {:?}, {} workers {:?}", want.get(k), s.threads, got.get(k)),
                    );
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: RPlan = serde_json::from_value(plan.clone()).expect("plan");
        let e = entries().into_iter().find(|e| e.0 == p.job.sys).expect("system");
        let mut v = vec![];
        if p.scheds.len() > 1 {
            for s in &p.scheds {
                v.push(RPlan { scheds: vec![s.clone()], ..p.clone() });
            }
        }
        for s in (e.4)(&p.job.sh) {
            v.push(RPlan { job: Job { sh: s, ..p.job.clone() }, ..p.clone() });
        }
        for k in 0..p.scheds.len() {
            let mut f = |g: &dyn Fn(&mut Sched)| {
                let mut q = p.clone();
                g(&mut q.scheds[k]);
                if format!("{:?}", q.scheds) != format!("{:?}", p.scheds) {
                    v.push(q)
                }
            };
            f(&|s| s.threads = 1);
            f(&|s| s.threads = 2);
            f(&|s| s.swap = 0);
            f(&|s| s.steal = 0);
        }
        v.into_iter().map(|q| serde_json::to_value(q).unwrap()).collect()
    }
    fn rule(&self) -> String {
        "one run = one deployment (setup, proofs, verdicts) executed by the single-threaded build and, byte for byte, by the multi-threaded build under several seeded schedules (pool size, order of the halves of every join, steals that change how rayon splits); judged = every compared output; distinct = different execution traces (schedules included)".into()
    }
    fn components(&self) -> Value {
        json!({"real":"both builds of zkp-groth16, zkp-marlin, zkp-plonk, zkp-bulletproofs, zkp-spartan, zkp-libra, zkp-hyrax, zkp-asvc with ark-* and rayon's iterator code",
               "stub":"rayon-core's thread pool (seeded scheduler; the tasks of a join run one after the other in either order, so interleavings inside a task are not explored)"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["safe Rust: tasks interact only at join points or through locks/atomics, whose order the scheduler varies per task".into()]
    }
}
