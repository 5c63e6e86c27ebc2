//! C15: recorded transcripts of prover and verifier, a random oracle the simulator can reprogram,
//! and relays that tamper with messages.
//!
//! A message was *sent before* challenge j when reprogramming challenge j and everything after it
//! leaves the message as it was (same prover, same random stream).  Every such message must have
//! been absorbed by the verifier when it draws challenge j.
use crate::mutate::{self, El, Kind, SMut};
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::*;
use crate::util::*;
use merlin::tap::{self, Event, Oracle};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    scheme: String,
    sh: Value,
    seed: u64,
    w: u64,
    /// challenges to reprogram (mod their number); empty: all of them
    js: Vec<u64>,
    /// slots a relay rewrites
    slots: Vec<(u64, u64)>,
    /// public statements a relay rewrites
    stmts: Vec<SMut>,
    /// other contexts the proof is judged under (variant seeds)
    ctxs: Vec<u64>,
}

pub struct FSys {
    name: &'static str,
    weight: u64,
    plan: fn(&mut Rg, Tier) -> Plan,
    exec: fn(&Plan, &mut Stats) -> Result<(), Viol>,
    shrink: fn(&Plan) -> Vec<Plan>,
}
pub fn fsys<S: Scheme>(weight: u64) -> FSys {
    FSys { name: S::NAME, weight, plan: plan::<S>, exec: exec::<S>, shrink: shrink::<S> }
}

fn plan<S: Scheme>(r: &mut Rg, t: Tier) -> Plan {
    let sh = S::shape(r, false);
    let all = r.pct(if t == Tier::Thorough { 60 } else { 25 });
    Plan {
        scheme: S::NAME.into(),
        sh: serde_json::to_value(&sh).unwrap(),
        seed: r.seed(),
        w: r.seed(),
        js: if all { vec![] } else { (0..r.range(3, 8)).map(|_| r.seed()).collect() },
        slots: (0..r.range(2, 8)).map(|_| (r.seed(), r.seed())).collect(),
        stmts: (0..r.range(1, 3)).map(|_| SMut::gen(r)).collect(),
        ctxs: (0..r.range(0, 2)).map(|_| r.seed()).collect(),
    }
}
fn shrink<S: Scheme>(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for (a, b, c) in [(true, false, false), (false, true, false), (false, false, true)] {
        let mut q = p.clone();
        if a {
            q.slots.clear();
        }
        if b {
            q.stmts.clear();
        }
        if c {
            q.ctxs.clear();
        }
        v.push(q);
    }
    if p.js.is_empty() {
        for j in 0..24 {
            v.push(Plan { js: vec![j], ..p.clone() });
        }
    }
    for i in 0..p.js.len() {
        if p.js.len() > 1 {
            v.push(Plan { js: vec![p.js[i]], ..p.clone() });
        }
    }
    for i in 0..p.slots.len() {
        if p.slots.len() > 1 {
            v.push(Plan { slots: vec![p.slots[i]], ..p.clone() });
        }
    }
    if let Ok(sh) = serde_json::from_value::<S::Sh>(p.sh.clone()) {
        for s in S::shrink(&sh) {
            v.push(Plan { sh: serde_json::to_value(s).unwrap(), ..p.clone() });
        }
    }
    let same = serde_json::to_string(p).unwrap();
    v.retain(|q| serde_json::to_string(q).unwrap() != same);
    v
}

/// the challenges of a log, and for each the number of events before it
fn challenges(l: &[Event]) -> Vec<(usize, String, Vec<u8>)> {
    l.iter()
        .enumerate()
        .filter_map(|(i, e)| match e {
            Event::Challenge { label, value } => Some((i, String::from_utf8_lossy(label).into_owned(), value.clone())),
            _ => None,
        })
        .collect()
}
fn count_in(l: &[Event], pat: &[u8]) -> usize {
    let mut n = 0;
    for e in l {
        if let Event::Append { bytes, .. } = e {
            let mut i = 0;
            while i + pat.len() <= bytes.len() {
                if bytes[i..i + pat.len()] == *pat {
                    n += 1;
                    i += pat.len();
                } else {
                    i += 1;
                }
            }
        }
    }
    n
}
fn record<T>(o: Option<Oracle>, f: impl FnOnce() -> T) -> (T, Vec<Event>) {
    tap::oracle(o);
    tap::start();
    let r = f();
    let l = tap::take();
    tap::oracle(None);
    (r, l)
}

fn exec<S: Scheme>(p: &Plan, st: &mut Stats) -> Result<(), Viol> {
    let sh: S::Sh = serde_json::from_value(p.sh.clone()).expect("shape");
    let inst = S::inst(&sh);
    let wit = S::wit(&inst, p.w);
    let ctx = match setup_caught::<S>(&inst, 7, p.w, &mut SimRng::new(p.seed)) {
        Ok(c) => c,
        Err(e) => {
            st.inc("event.setup-refused");
            st.ev(format!("setup refused: {}", e.chars().take(60).collect::<String>()));
            return Ok(());
        }
    };
    let stmt = S::stmt(&inst, &wit);
    let prove = |o: Option<Oracle>| record(o.clone(), || prove_caught::<S>(&ctx.pk, &inst, &wit, &mut rng_after(p.seed ^ 0x70, &o)));
    let (proof, plog) = prove(None);
    let proof = match proof {
        Ok(b) => b,
        Err(e) => {
            st.inc("event.prove-refused");
            st.ev(format!("prove refused: {}", e.chars().take(60).collect::<String>()));
            return Ok(());
        }
    };
    let (v, vlog) = record(None, || verify_caught::<S>(&ctx.vk, &stmt, &proof));
    if !v.accepted() {
        // completeness is another property's business
        st.inc("event.honest-proof-not-accepted");
        return Ok(());
    }
    let pc = challenges(&plog);
    let vc = challenges(&vlog);
    st.ev(format!("{} challenges, {} events, proof {:016x}", vc.len(), vlog.len(), fnv(&proof)));
    st.inc("judged");
    st.add("event.challenges-compared", vc.len() as u64);
    // identical challenges from identical public data
    let n = pc.len().min(vc.len());
    for i in 0..n {
        if pc[i].2 != vc[i].2 {
            return viol(format!("{}: challenges differ", S::NAME), format!("challenge {} ({}) of the prover differs from the verifier's ({})", i, pc[i].1, vc[i].1));
        }
    }
    if pc.len() != vc.len() && S::NAME.starts_with("plonk") == false {
        return viol(format!("{}: challenge counts differ", S::NAME), format!("the prover draws {} challenges, the verifier {}", pc.len(), vc.len()));
    }
    let (canon, lens) = match S::canon(&proof) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let slots = mutate::layout(S::CURVE, &canon, &lens);
    let tb = |s: &mutate::Slot, b: &[u8]| mutate::wire_to_transcript(s.kind, &b[s.off..s.off + s.len]);
    // messages sent before a challenge are absorbed before it
    let js: Vec<usize> = if p.js.is_empty() { (0..vc.len()).collect() } else { p.js.iter().map(|j| (*j % vc.len().max(1) as u64) as usize).collect() };
    // a full sweep over a long transcript is spread over several runs
    let part = 24;
    let js: Vec<usize> = if js.len() > part { js.iter().skip((p.seed % (js.len() as u64 / part as u64 + 1)) as usize).step_by(js.len() / part + 1).copied().collect() } else { js };
    let fl = flags::<S>(&ctx, &inst, &wit, p.seed, &proof, &vlog, &js, None, st)?;
    for (key, msg) in fl {
        if std::env::var("DST_SURVEY").is_ok() {
            eprint!("{}", format!("SURVEY {}|{} :: {}\n", S::NAME.split('/').next().unwrap(), key, msg));
            continue;
        }
        if is_loose(S::NAME, &key) {
            st.inc("event.exempt-pairs");
            continue;
        }
        // a component that happens not to vary in this circuit looks the same: other circuits decide
        let mut again = 0;
        let mut tried = 0;
        for k in 0..12 {
            if tried == 6 || again + 1 < tried {
                break;
            }
            let mut r = Rg::new(mix2(p.seed, 0x636f_6e66 + k));
            let i2 = S::inst(&S::shape(&mut r, false));
            let w2 = S::wit(&i2, r.seed());
            let seed = r.seed();
            let c2 = match setup_caught::<S>(&i2, 7, 1, &mut SimRng::new(seed)) {
                Ok(c) => c,
                Err(_) => continue,
            };
            let s2 = S::stmt(&i2, &w2);
            let p2 = match prove_caught::<S>(&c2.pk, &i2, &w2, &mut SimRng::new(seed ^ 0x70)) {
                Ok(p) => p,
                Err(_) => continue,
            };
            let (v2, l2) = record(None, || verify_caught::<S>(&c2.vk, &s2, &p2));
            if !v2.accepted() {
                continue;
            }
            let lab = key.rsplit("challenge ").next().unwrap_or("");
            let cs = challenges(&l2);
            let all: Vec<usize> = (0..cs.len()).filter(|k| if by_index::<S>() { k.to_string() == lab } else { cs[*k].1 == lab }).collect();
            st.inc("event.confirmations");
            tried += 1;
            if flags::<S>(&c2, &i2, &w2, seed, &p2, &l2, &all, Some(&key), st)?.iter().any(|f| f.0 == key) {
                again += 1;
            }
        }
        st.ev(format!("{}: {} of {} other circuits", key, again, tried));
        if again >= 5 {
            return viol(format!("{}: {}", S::NAME, key), msg);
        }
        st.inc("event.degenerate-pairs");
    }
    // a rewritten message changes every challenge drawn after it was absorbed
    for (pick, seed) in &p.slots {
        let els: Vec<usize> = (0..slots.len()).filter(|i| !matches!(slots[*i].kind, Kind::Len | Kind::Flag | Kind::Raw)).collect();
        if els.is_empty() {
            break;
        }
        let i = els[(*pick % els.len() as u64) as usize];
        let s = slots[i];
        let cur = &canon[s.off..s.off + s.len];
        let el = *[El::Random, El::Inc, El::Neg, El::Zero, El::Double].iter().nth((*seed % 5) as usize).unwrap();
        let new = match mutate::elem(s.kind, cur, el, *seed) {
            Some(n) if n != cur => n,
            _ => continue,
        };
        let t = match tb(&s, &canon) {
            Some(t) => t,
            None => continue,
        };
        // where the verifier absorbs it
        let all: Vec<usize> = (0..vlog.len()).filter(|e| count_in(&vlog[*e..*e + 1], &t) > 0).collect();
        let first = match all[..] {
            [e] => e,
            _ => continue,
        };
        // another component with the same value may have been absorbed first
        if els.iter().filter(|k| canon[slots[**k].off..slots[**k].off + slots[**k].len] == *cur).count() > 1 || degenerate(&s, cur) {
            continue;
        }
        let mut b = canon.clone();
        b[s.off..s.off + s.len].copy_from_slice(&new);
        let (_, l) = record(None, || verify_caught::<S>(&ctx.vk, &stmt, &b));
        st.inc("fault.message-rewritten");
        let c = challenges(&l);
        st.inc("judged");
        for (k, (ev, lab, val)) in vc.iter().enumerate() {
            if *ev > first && k < c.len() && c[k].2 == *val {
                return viol(
                    format!("{}: challenge {} ignores a message", S::NAME, lab),
                    format!("challenge {} ({}) is the same after component {} was changed, although it is drawn after that component was received", k, lab, i),
                );
            }
        }
    }
    // a rewritten statement changes every challenge
    for m in &p.stmts {
        let s2 = match m.apply(&stmt, S::FIXED_GROUPS) {
            Some(s) if s != stmt => s,
            _ => continue,
        };
        if s2.iter().map(|g| g.len()).collect::<Vec<_>>() != stmt.iter().map(|g| g.len()).collect::<Vec<_>>() {
            continue;
        }
        let (_, l) = record(None, || verify_caught::<S>(&ctx.vk, &s2, &proof));
        st.inc("fault.statement-rewritten");
        let c = challenges(&l);
        st.inc("judged");
        st.ev(format!("statement {}: {} challenges", m.kind(), c.len()));
        for (k, (_, lab, val)) in vc.iter().enumerate() {
            if k < c.len() && c[k].2 == *val {
                return viol(format!("{}: challenge {} ignores the statement", S::NAME, lab), format!("challenge {} ({}) is the same for another public statement ({})", k, lab, m.kind()));
            }
        }
    }
    // another circuit or other parameters change every challenge
    for v in &p.ctxs {
        let other = if v % 2 == 0 { S::variant(&inst, *v) } else { inst.clone() };
        let c2 = match setup_caught::<S>(&other, 7 + v % 3, p.w, &mut SimRng::new(*v)) {
            Ok(c) => c,
            Err(_) => continue,
        };
        if S::ident(&other, &c2.vk) == S::ident(&inst, &ctx.vk) {
            continue;
        }
        let (_, l) = record(None, || verify_caught::<S>(&c2.vk, &stmt, &proof));
        st.inc("fault.proof-misdirected-to-another-context");
        let c = challenges(&l);
        st.inc("judged");
        st.ev(format!("context {}: {} challenges", v, c.len()));
        for (k, (_, lab, val)) in vc.iter().enumerate() {
            if k < c.len() && c[k].2 == *val {
                return viol(
                    format!("{}: challenge {} ignores the {}", S::NAME, lab, if v % 2 == 0 { "circuit" } else { "parameters" }),
                    format!("challenge {} ({}) is the same under another {}", k, lab, if v % 2 == 0 { "circuit" } else { "set of parameters" }),
                );
            }
        }
    }
    Ok(())
}
/// Pairs (component, challenge): determined before the challenge is drawn, not absorbed by then.
#[allow(clippy::type_complexity, clippy::too_many_arguments)]
fn flags<S: Scheme>(ctx: &Ctx<S>, inst: &S::Inst, wit: &S::Wit, seed: u64, proof: &[u8], vlog: &[Event], js: &[usize], until: Option<&str>, st: &mut Stats) -> Result<Vec<(String, String)>, Viol> {
    let vc = challenges(vlog);
    let mut out: Vec<(String, String)> = vec![];
    let (canon, lens) = match S::canon(proof) {
        Ok(c) => c,
        Err(_) => return Ok(out),
    };
    let slots = mutate::layout(S::CURVE, &canon, &lens);
    // responses of three-move proofs: they change with their challenge while every other challenge
    // stays what it was; the challenge and what was absorbed before it determine them
    let sigma: Vec<usize> = (0..vc.len()).filter(|m| matches!(vc[*m].1.as_str(), "c" | "challenge_tau")).collect();
    let mut responses: Option<Vec<usize>> = None;
    let mut is_response = |i: usize, st: &mut Stats| -> bool {
        if sigma.is_empty() {
            return false;
        }
        responses
            .get_or_insert_with(|| {
                st.inc("fault.sigma-challenges-reprogrammed");
                let all: Vec<Vec<u8>> = vc.iter().map(|c| c.2.clone()).collect();
                let mut v = vec![];
                // and they carry a mask: another random stream changes them although every
                // challenge stays (a coefficient that is zero for every satisfying assignment has
                // a response that is its mask alone)
                for (o, sd) in [(Oracle::PinBut(all.clone(), sigma.clone()), seed ^ 0x70), (Oracle::Pin(all), seed ^ 0x7070)] {
                    let (q, _) = record(Some(o), || prove_caught::<S>(&ctx.pk, inst, wit, &mut SimRng::new(sd)));
                    if let Ok(q) = q.and_then(|q| S::canon(&q)) {
                        if q.1 == lens {
                            v.extend(differing(&(canon.clone(), lens.clone()), &q));
                        }
                    }
                }
                v
            })
            .contains(&i)
    };
    for j in js {
        let j = *j;
        if j >= vc.len() {
            continue;
        }
        if out.iter().any(|o| until == Some(&o.0[..])) {
            break;
        }
        let o = Some(Oracle::Alter(j));
        let (q, _) = record(o.clone(), || prove_caught::<S>(&ctx.pk, inst, wit, &mut rng_after(seed ^ 0x70, &o)));
        st.inc("fault.challenges-reprogrammed");
        let q = match q.and_then(|q| S::canon(&q)) {
            Ok(q) => q,
            Err(_) => {
                st.inc("event.prover-stopped-on-reprogrammed-challenge");
                continue;
            }
        };
        if q.1 != lens {
            continue;
        }
        let at = vc[j].0;
        for (i, s) in slots.iter().enumerate() {
            if matches!(s.kind, Kind::Len | Kind::Flag | Kind::Raw) {
                continue;
            }
            let a = &canon[s.off..s.off + s.len];
            if a != &q.0[s.off..s.off + s.len] || degenerate(s, a) {
                continue;
            }
            let t = match mutate::wire_to_transcript(s.kind, a) {
                Some(t) => t,
                None => continue,
            };
            st.inc("judged");
            st.inc("event.message-challenge-pairs");
            let find = |l: &[Event]| (0..l.len()).find(|e| count_in(&l[*e..*e + 1], &t) > 0 || count_in(&l[*e..*e + 1], a) > 0);
            if find(&vlog[..at]).is_some() {
                continue;
            }
            let lab = if by_index::<S>() { format!("{}", j) } else { vc[j].1.clone() };
            // the randomness of a sum-check carried along in the clear: the challenges themselves
            if class_of(s) == "scalar" && s.len == 32 && vc.iter().any(|c| c.2.len() >= 31 && c.2[..31] == a[..31]) {
                st.inc("event.exempt-echoes");
                continue;
            }
            let class = if S::NAME == "plonk" && class_of(s) != "scalar" { if i < slots.len() / 2 { "commitment" } else { "opening" } } else { class_of(s) }; // matches!(s.kind, Kind::G1 | Kind::G2 | Kind::P25) { "group element" } else { "scalar" };
            let key = match find(vlog) {
                None if S::NAME.starts_with("bulletproofs") && i + 1 == slots.len() => continue,
                None if class == "scalar" && is_response(i, st) => {
                    st.inc("event.exempt-responses");
                    continue;
                }
                None => format!("{} never absorbed, challenge {}", class, lab),
                Some(e) => match &vlog[e] {
                    Event::Append { label, .. } => format!("{} absorbed after challenge {}", if label == b"digest" || label == b"Seed" { class.to_string() } else { String::from_utf8_lossy(label).into_owned() }, lab),
                    _ => continue,
                },
            };
            if !out.iter().any(|o| o.0 == key) {
                let m = format!("proof component {} ({:?}, of {}) is sent before challenge {} ({}) is drawn, but the verifier has not absorbed it by then: it can be chosen after seeing the challenge", i, s.kind, slots.len(), j, vc[j].1);
                out.push((key, m));
            }
        }
    }
    Ok(out)
}
/// transcripts without labels
fn by_index<S: Scheme>() -> bool {
    matches!(S::NAME, "plonk" | "marlin")
}
fn class_of(s: &mutate::Slot) -> &'static str {
    if matches!(s.kind, Kind::G1 | Kind::G2 | Kind::P25) {
        "group element"
    } else {
        "scalar"
    }
}
/// identity, zero and one occur by themselves
fn degenerate(s: &mutate::Slot, b: &[u8]) -> bool {
    [El::Double, El::Neg].iter().any(|e| mutate::elem(s.kind, b, *e, 0).map_or(true, |x| x == b)) || (s.len == 32 && b[0] == 1 && b[1..].iter().all(|x| *x == 0))
}

/// the prover's random stream; what is drawn after the first reprogrammed challenge is fresh too
fn rng_after(seed: u64, o: &Option<Oracle>) -> SimRng {
    let mut r = SimRng::new(seed);
    if let Some(Oracle::Alter(j)) = o {
        r.after = Some(*j);
    }
    r
}

/// Pairs that the protocols leave open (DESIGN.md): messages of a later sub-protocol that the
/// prover happens to know early, and challenges that are not used (the bare seed of a duplex).
fn is_loose(name: &str, key: &str) -> bool {
    let fam = name.split('/').next().unwrap_or(name);
    let (what, ch) = match key.split_once(" absorbed after challenge ") {
        Some(x) => x,
        None => return false,
    };
    let n: usize = ch.parse().unwrap_or(usize::MAX);
    let sub = ["c", "combine_two_claims_to_one"];
    match fam {
        // the seed alone is not used; evaluations are fixed by the commitments and the point;
        // openings are only batched, with randomness drawn after them
        "plonk" => (what == "commitment" && n == 0) || (what == "scalar" && n <= 3) || (what == "opening" && n <= 4),
        "marlin" => what == "scalar" && n <= 3,
        // masks of a proof are sent when the proof starts, which is after the other proofs
        "hyrax" => what == "beta" && ch == "x",
        "libra" => matches!(what, "poly" | "claim_final"),
        "libra-zk" => (what == "beta" && ch == "x") || (what == "comm_poly" && sub.contains(&ch)) || what == "comm_eval",
        "spartan-nizk" | "spartan-snark" => {
            (what == "beta" && ch == "x")
                || (matches!(what, "X" | "Y" | "Z") && ch == "c")
                || (matches!(what, "comm_poly" | "comm_eval") && sub.contains(&ch))
                // evaluations of public matrices and the memory-checking argument about them
                || (fam == "spartan-snark" && (what.contains("claim") || what == "evals_ops_val" || what == "comm_poly_row_col_ops_val"))
        }
        _ => false,
    }
}

pub struct Transcripts;
fn systems() -> Vec<FSys> {
    use crate::schemes::{gkr::*, plonk::*, r1cs::*};
    use ark_bls12_381::Bls12_381 as B;
    use zkp_curve25519::Curve25519 as C;
    vec![
        fsys::<Marlin>(3),
        fsys::<Plonk>(3),
        fsys::<Bp<B>>(1),
        fsys::<Bp<C>>(4),
        fsys::<SpSnark<B>>(1),
        fsys::<SpSnark<C>>(4),
        fsys::<SpNizk<B>>(1),
        fsys::<SpNizk<C>>(3),
        fsys::<Libra<B>>(2),
        fsys::<LibraZk<B>>(1),
        fsys::<LibraZk<C>>(3),
        fsys::<Hyrax<B>>(1),
        fsys::<Hyrax<C>>(3),
    ]
}
impl Check for Transcripts {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            280
        } else {
            9000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let v: Vec<FSys> = systems();
        let total: u64 = v.iter().map(|s| s.weight).sum();
        let mut x = r.below(total as usize) as u64;
        for s in &v {
            if x < s.weight {
                return serde_json::to_value((s.plan)(&mut r, t)).unwrap();
            }
            x -= s.weight;
        }
        unreachable!()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = systems().into_iter().find(|s| s.name == p.scheme).expect("system");
        st.inc(&format!("sys.{}", s.name));
        rayon_core::sim_install(p.seed, 1, 0, 0);
        let r = (s.exec)(&p, st);
        rayon_core::sim_remove();
        tap::oracle(None);
        r
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = systems().into_iter().find(|s| s.name == p.scheme).expect("system");
        (s.shrink)(&p).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }
    fn rule(&self) -> String {
        "one run = one circuit, its keys, an honest prover and verifier with recorded transcripts, then provers against a reprogrammed random oracle and relays that rewrite messages, statements and contexts; \
         distinct = different execution traces"
            .into()
    }
    fn components(&self) -> Value {
        json!({"real": "provers and verifiers of zkp-marlin, zkp-plonk, zkp-bulletproofs, zkp-spartan, zkp-libra, zkp-hyrax; merlin and Blake2s", "stub": "the random oracle's answers can be reprogrammed; network and random stream are the simulator's"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a proof component absorbed verbatim (possibly inside a longer message) counts as absorbed".into(), "equal challenges by chance are treated as impossible".into()]
    }
}
