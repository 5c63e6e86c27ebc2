//! C20: every backend is a replica that judges the same assignments of the same circuit.
//! C14: failures injected at any allocation or statement of a synthesis.
use crate::circ::*;
use crate::gadg;
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::r1cs::*;
use crate::schemes::*;
use crate::util::*;
use crate::world::Sched;
use ark_bls12_381::Bls12_381 as B;
use ark_ff::{Field, PrimeField};
use serde_json::{json, Value};
use zkp_curve::Curve;
use zkp_curve25519::Curve25519 as C;
use crate::test_cs::TestConstraintSystem;
use zkp_r1cs::{ConstraintSynthesizer, Index};

/// A backend that takes any synthesizer.
pub trait R1: Scheme<Sh = Shape, Inst = Circ, Wit = Asg<<Self as Scheme>::F>> {
    const SETUP: bool = true;
    fn setup_s(s: Synth<'_, Self::F>, srs: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String>;
    fn prove_s(pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String>;
}
fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
impl R1 for Groth16 {
    fn setup_s(s: Synth<'_, Self::F>, _srs: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let pk = zkp_groth16::generate_random_parameters::<B, _, _>(s, rng).map_err(es)?;
        Ok(Ctx { vk: pk.vk.clone(), pk, first: None })
    }
    fn prove_s(pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        match rng.plain {
            true => zkp_groth16::prover::create_proof_no_zk(pk, s).map(|p| enc(&p)).map_err(es),
            _ => zkp_groth16::create_random_proof(pk, s, rng).map(|p| enc(&p)).map_err(es),
        }
    }
}
impl R1 for Marlin {
    fn setup_s(s: Synth<'_, Self::F>, srs: u64, _rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let srs = marlin_srs(srs, MARLIN_DEG);
        let (ipk, ivk) = zkp_marlin::index(srs, s).map_err(es)?;
        Ok(Ctx { pk: MarlinPk { srs: 0, ipk }, vk: ivk, first: None })
    }
    fn prove_s(pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_marlin::create_random_proof(&pk.ipk, s, rng).map(|p| enc(&p)).map_err(es)
    }
}
impl<G: CurveName> R1 for Bp<G> {
    const SETUP: bool = false;
    fn setup_s(s: Synth<'_, Self::F>, _srs: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let (gens, r1cs, proof) = zkp_bulletproofs::create_random_proof::<G, _, _>(s, rng).map_err(es)?;
        let c = std::rc::Rc::new(BpCtx { gens, r1cs });
        Ok(Ctx { pk: c.clone(), vk: c, first: Some(enc(&proof)) })
    }
    fn prove_s(_pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_bulletproofs::create_random_proof::<G, _, _>(s, rng).map(|p| enc(&p.2)).map_err(es)
    }
}
impl<G: CurveName> R1 for SpSnark<G> {
    fn setup_s(s: Synth<'_, Self::F>, _srs: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let p = zkp_spartan::snark::generate_random_parameters::<G, _, _>(s, rng).map_err(es)?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(Ctx { pk: SpPk { pk, h }, vk: SpVk { vk, h }, first: None })
    }
    fn prove_s(pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_spartan::snark::create_random_proof(&pk.pk, s, pk.h[0], pk.h[1], pk.h[2], rng).map(|p| enc(&p)).map_err(es)
    }
}
impl<G: CurveName> R1 for SpNizk<G> {
    fn setup_s(s: Synth<'_, Self::F>, _srs: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let p = zkp_spartan::nizk::generate_random_parameters::<G, _, _>(s, rng).map_err(es)?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(Ctx { pk: SnPk { pk, h }, vk: SnVk { vk, h }, first: None })
    }
    fn prove_s(pk: &Self::Pk, s: Synth<'_, Self::F>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_spartan::nizk::create_random_proof(&pk.pk, s, pk.h[0], pk.h[1], rng).map(|p| enc(&p)).map_err(es)
    }
}

macro_rules! by_name {
    ($name:expr, $f:ident($($a:expr),*)) => {
        match $name {
            "groth16" => $f::<Groth16>($($a),*),
            "marlin" => $f::<Marlin>($($a),*),
            "bp/bls" => $f::<Bp<B>>($($a),*),
            "bp/25519" => $f::<Bp<C>>($($a),*),
            "snark/bls" => $f::<SpSnark<B>>($($a),*),
            "snark/25519" => $f::<SpSnark<C>>($($a),*),
            "nizk/bls" => $f::<SpNizk<B>>($($a),*),
            "nizk/25519" => $f::<SpNizk<C>>($($a),*),
            x => panic!("backend {}", x),
        }
    };
}
const ALL: &[(&str, u64)] = &[("groth16", 3), ("marlin", 1), ("bp/bls", 2), ("bp/25519", 3), ("snark/bls", 1), ("snark/25519", 2), ("nizk/bls", 2), ("nizk/25519", 3)];

// ---- C20 -------------------------------------------------------------------
pub struct Agree;
/// assignment number k of a run
fn asg<F: PrimeField>(c: &Circ, spec: &Value) -> Asg<F> {
    let w = c.assign::<F>(spec["w"].as_u64().unwrap());
    let s = spec["s"].as_u64().unwrap();
    match spec["how"].as_str().unwrap() {
        "honest" => w,
        "lie" => lie_circ(c, &w, s),
        "zero" => Asg { vals: vec![F::zero(); w.vals.len()] },
        "one" => Asg { vals: vec![F::one(); w.vals.len()] },
        // the variable one constraint determines, off by a little
        "last" => {
            let mut w = w;
            let mut r = Rg::new(s);
            let v: Vec<usize> = (0..c.vars.len()).filter(|i| matches!(c.vars[*i].def, Def::Solved(_))).collect();
            if !v.is_empty() {
                let k = if r.pct(50) { *v.last().unwrap() } else { *r.pick(&v) };
                w.vals[k] += match r.below(3) {
                    0 => F::one(),
                    1 => -F::one(),
                    _ => F::from(1u64 << 63),
                };
            }
            w
        }
        // another honest assignment's value of one variable
        _ => {
            let mut w = w;
            let o = c.assign::<F>(s);
            let k = Rg::new(s).below(w.vals.len().max(1));
            if k < w.vals.len() {
                w.vals[k] = o.vals[k];
            }
            w
        }
    }
}
fn judge<S: R1>(name: &str, c: &Circ, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    let seed = plan["seed"].as_u64().unwrap();
    let specs = plan["asg"].as_array().unwrap();
    // Bulletproofs fixes its circuit while proving: a first, honest proof makes the parameters
    let w0 = c.assign::<S::F>(seed);
    let mut rng = SimRng::new(mix2(seed, hstr(name)));
    let ctx = match catch(|| S::setup(c, seed & 1, seed, &mut rng)) {
        Ok(Ok(x)) => x,
        e => return viol(format!("{} setup", name), format!("setup of a circuit fails: {:?}", e.map(|r| r.map(|_| ())))),
    };
    let _ = w0;
    for (k, spec) in specs.iter().enumerate() {
        let w = asg::<S::F>(c, spec);
        let want = c.violated(&w).is_empty();
        let mut rng = SimRng::new(mix2(seed ^ k as u64, hstr(name)));
        if k % 3 == 2 {
            rng.plain = true;
        }
        // Bulletproofs: alternately through the synthesizer and through the stored circuit
        let (proof, vk) = if S::SETUP || k % 2 == 1 {
            (catch(|| if S::SETUP { S::prove_s(&ctx.pk, Synth::honest(c, &w), &mut rng) } else { S::prove(&ctx.pk, c, &w, &mut rng) }), None)
        } else {
            match catch(|| S::setup_s(Synth::honest(c, &w), 0, &mut rng)) {
                Ok(Ok(x)) => (Ok(Ok(x.first.clone().unwrap())), Some(x.vk)),
                Ok(Err(e)) => (Ok(Err(e)), None),
                Err(e) => (Err(e), None),
            }
        };
        let got = match &proof {
            Ok(Ok(p)) => verify_caught::<S>(vk.as_ref().unwrap_or(&ctx.vk), &S::stmt(c, &w), p).accepted(),
            _ => false,
        };
        st.inc("judged");
        st.inc(&format!("backend.{}", name));
        st.inc(if want { "event.satisfying" } else { "fault.violating_assignment" });
        st.ev(format!("{} {} {} -> {}", name, spec["how"], want, got));
        if got != want {
            return viol(
                format!("{}: {}", name, if want { "refuses a satisfying assignment" } else { "accepts a violating assignment" }),
                format!("{}: constraints evaluate to {}, the backend says {} (prover: {})", name, want, got, match &proof { Ok(Ok(_)) => "a proof".into(), Ok(Err(e)) => e.clone(), Err(p) => format!("panic {}", p) }),
            );
        }
    }
    Ok(())
}
fn test_cs<F: PrimeField>(c: &Circ, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    let mut hashes = std::collections::BTreeSet::new();
    for spec in plan["asg"].as_array().unwrap() {
        let w = asg::<F>(c, spec);
        let bad = c.violated(&w);
        let mut cs = TestConstraintSystem::<F>::new();
        if let Err(e) = Synth::honest(c, &w).generate_constraints(&mut cs) {
            return viol("test constraint system: synthesis fails", format!("{}", e));
        }
        st.inc("judged");
        st.inc("backend.test");
        hashes.insert(cs.hash());
        let order: Vec<usize> = c.prog.iter().filter_map(|s| if let St::Enforce(k) = s { Some(*k) } else { None }).collect();
        let first = order.iter().find(|k| bad.contains(k)).cloned();
        let says = cs.which_is_unsatisfied().map(|p| p.rsplit('/').next().unwrap_or("").trim_start_matches('c').parse::<usize>().ok());
        st.ev(format!("test {} -> {:?}", bad.is_empty(), says));
        if says != first.map(Some) || cs.is_satisfied() != bad.is_empty() {
            return viol("test constraint system: verdict", format!("first violated constraint is {:?}, it says {:?}", first, says));
        }
        if cs.num_constraints() != order.len() || cs.num_inputs() != c.n_pub() + 1 || !cs.verify(&c.publics(&w)) {
            return viol("test constraint system: counts", "number of constraints, inputs or the inputs differ");
        }
        let mut off = c.publics(&w);
        if let Some(x) = off.last_mut() {
            *x += F::one();
            if cs.verify(&off) {
                return viol("test constraint system: inputs", "verify() accepts other public inputs");
            }
        }
    }
    if hashes.len() > 1 {
        return viol("test constraint system: hash depends on values", "one circuit, several hashes");
    }
    Ok(())
}
/// the combination itself, operation by operation, against a plain map
fn lc_algebra<F: PrimeField>(plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    let mut r = Rg::new(plan["lc"].as_u64().unwrap());
    let sh = Shape { seed: r.seed(), max_pub: 6, max_free: 30, cons: 2, exotic: *r.pick(&[40, 80, 100]), lc: *r.pick(&[3, 8, 15, 16, 17, 33, 60]) };
    let c = Circ::gen(&sh);
    let w = c.assign::<F>(r.u64());
    let (mut ins, mut aux) = (vec![F::one()], vec![]);
    let mut vars = vec![];
    for (i, v) in c.vars.iter().enumerate() {
        let x = w.vals[i];
        vars.push(Some(zkp_r1cs::Variable::new_unchecked(if v.public {
            ins.push(x);
            Index::Input(ins.len() - 1)
        } else {
            aux.push(x);
            Index::Aux(aux.len() - 1)
        })));
    }
    let one = zkp_r1cs::Variable::new_unchecked(Index::Input(0));
    let val = |v: &zkp_r1cs::Variable| match v.get_unchecked() {
        Index::Input(i) => ins[i],
        Index::Aux(i) => aux[i],
    };
    for con in &c.cons {
        for ops in [&con.a, &con.b, &con.c] {
            st.inc("judged");
            let l = lib_lc(zkp_r1cs::LinearCombination::<F>::zero(), ops, &vars, one);
            let want = eval_lc(ops, &w.vals);
            let got = l.as_ref().iter().fold(F::zero(), |s, (v, k)| s + *k * val(v));
            st.add("lc_terms", l.as_ref().len() as u64);
            if got != want {
                return viol("linear combination", format!("{} operations: the combination evaluates to another value", ops.len()));
            }
        }
    }
    Ok(())
}

fn wpick(r: &mut Rg, v: &[(&'static str, u64)]) -> &'static str {
    let t: u64 = v.iter().map(|x| x.1).sum();
    let mut k = r.u64() % t;
    for (n, w) in v {
        if k < *w {
            return n;
        }
        k -= w;
    }
    v[0].0
}

impl Check for Agree {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            420
        } else {
            12000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let mut sh = Shape::gen(&mut r);
        sh.exotic = *r.pick(&[0, 30, 60, 90]);
        sh.lc = *r.pick(&[2, 4, 9, 17]);
        let mut b: Vec<&str> = vec![];
        let n = r.range(2, 4);
        while b.len() < n {
            let x = wpick(&mut r, ALL);
            if !b.contains(&x) {
                b.push(x);
            }
        }
        sh.cons = sh.cons.min(if t == Tier::Quick { 9 } else { 20 });
        if b.iter().any(|x| x.starts_with("snark") || *x == "marlin") {
            sh.cons = sh.cons.min(6);
            sh.lc = sh.lc.min(4);
        }
        let mut a = vec![json!({"how": "honest", "w": r.seed(), "s": 0})];
        for _ in 0..r.range(2, 4) {
            a.push(json!({"how": *r.pick(&["honest", "lie", "lie", "last", "last", "mix", "zero", "one"]), "w": r.seed(), "s": r.seed()}));
        }
        json!({"sh": sh, "seed": r.seed(), "backends": b, "asg": a, "lc": r.seed(), "sched": Sched::gen(&mut r)})
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let sh: Shape = serde_json::from_value(plan["sh"].clone()).expect("shape");
        let c = Circ::gen(&sh);
        let sched: Option<Sched> = serde_json::from_value(plan["sched"].clone()).expect("sched");
        Sched::install(&sched);
        let r = (|| {
            for k in 0..4u64 {
                let mut p = plan.clone();
                p["lc"] = json!(mix2(plan["lc"].as_u64().unwrap(), k) >> 16);
                lc_algebra::<<B as Curve>::Fr>(&p, st)?;
                lc_algebra::<<C as Curve>::Fr>(&p, st)?;
            }
            test_cs::<<B as Curve>::Fr>(&c, plan, st)?;
            test_cs::<<C as Curve>::Fr>(&c, plan, st)?;
            for b in plan["backends"].as_array().unwrap() {
                let name = b.as_str().unwrap();
                by_name!(name, judge(name, &c, plan, st))?;
            }
            Ok(())
        })();
        Sched::remove(st);
        r
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let mut v = vec![];
        for f in ["backends", "asg"] {
            let n = plan[f].as_array().unwrap().len();
            for i in (0..n).rev() {
                let mut q = plan.clone();
                q[f].as_array_mut().unwrap().remove(i);
                v.push(q);
            }
        }
        let sh: Shape = serde_json::from_value(plan["sh"].clone()).expect("shape");
        for s in shrink_shape(&sh) {
            let mut q = plan.clone();
            q["sh"] = serde_json::to_value(s).unwrap();
            v.push(q);
        }
        if !plan["sched"].is_null() {
            let mut q = plan.clone();
            q["sched"] = Value::Null;
            v.push(q);
        }
        v
    }
    fn rule(&self) -> String {
        "one run = one generated circuit whose satisfying and Byzantine assignments are judged by several backends (prove + verify) and by the test constraint system under a seeded task schedule; every verdict is compared with direct evaluation; distinct = different execution traces".into()
    }
    fn components(&self) -> Value {
        json!({"real": "zkp-r1cs (LinearCombination), zkp-groth16, zkp-marlin, zkp-bulletproofs, zkp-spartan (both modes), zkp-gadgets test_constraint_system", "stub": "randomness, rayon thread pool"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a prover that refuses (error or panic) a violating assignment counts as a negative verdict".into()]
    }
}

// ---- C14 -------------------------------------------------------------------
pub struct Faults;
const ERRS: [AllocFault; 3] = [AllocFault::Missing, AllocFault::DivZero, AllocFault::Unsat];

fn faults<S: R1>(name: &str, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    let sh: Shape = serde_json::from_value(plan["sh"].clone()).expect("shape");
    let seed = plan["seed"].as_u64().unwrap();
    let c = Circ::gen(&sh);
    let w = c.assign::<S::F>(seed);
    let mut r = Rg::new(seed);
    let srs = seed & 1;
    let mk = |s: Synth<'_, S::F>| catch(|| S::setup_s(s, srs, &mut SimRng::new(seed)));
    // setup without any value, and with values: the same parameters
    let ctx = if S::SETUP {
        let blank = match mk(Synth::blank(&c)) {
            Ok(Ok(x)) => x,
            e => return viol(format!("{}: setup needs values", name), format!("setup without an assignment: {:?}", e.map(|r| r.map(|_| ())))),
        };
        st.inc("judged");
        if plan["both"].as_bool().unwrap() {
            match mk(Synth::honest(&c, &w)) {
                Ok(Ok(x)) if S::vk_bytes(&x.vk) == S::vk_bytes(&blank.vk) && S::pk_bytes(&x.pk) == S::pk_bytes(&blank.pk) => {}
                Ok(Ok(_)) => return viol(format!("{}: setup depends on values", name), "parameters made with and without an assignment differ"),
                e => return viol(format!("{}: setup with values", name), format!("setup with an assignment: {:?}", e.map(|r| r.map(|_| ())))),
            }
            st.inc("judged");
        }
        Some(blank)
    } else {
        None
    };
    let n_alloc = c.vars.len();
    let n_st = c.prog.len();
    let prove = |s: Synth<'_, S::F>| match &ctx {
        Some(x) => catch(|| S::prove_s(&x.pk, s, &mut SimRng::new(seed ^ 1))),
        None => catch(|| S::setup_s(s, 0, &mut SimRng::new(seed ^ 1)).map(|x| x.first.unwrap())),
    };
    let must_fail = |got: Result<Result<(), String>, String>, e: AllocFault, what: String| -> Result<(), Viol> {
        match got {
            Ok(Err(m)) if m.contains(e.name()) => Ok(()),
            Ok(Err(m)) => viol(format!("{}: another error", name), format!("{} fails with {}, reported as {}", what, e.name(), m)),
            Ok(Ok(())) => viol(format!("{}: failure swallowed", name), format!("{} fails with {} and a result is returned all the same", what, e.name())),
            Err(p) => viol(format!("{}: panic at {}", name, panic_site(&p)), format!("{} fails with {}: panic {}", what, e.name(), p)),
        }
    };
    // every allocation in turn fails while proving
    for k in 0..n_alloc {
        let e = *r.pick(&ERRS);
        let mut s = Synth::honest(&c, &w);
        s.fault = Some((k, e));
        let probe = s.probe.clone();
        let got = prove(s).map(|x| x.map(|_| ()));
        st.inc("judged");
        st.inc("fault.allocation_fails");
        st.ev(format!("{} alloc {} {} -> {:?}", name, k, e.name(), got.is_ok()));
        if !probe.borrow().fired {
            return viol(format!("{}: value not asked for", name), format!("the prover never evaluated variable {}", k));
        }
        must_fail(got, e, format!("variable {} while proving", k))?;
    }
    // the circuit itself gives up at a statement, in setup and in proving
    for _ in 0..4 {
        let k = r.below(n_st + 1);
        let e = *r.pick(&ERRS);
        let mut s = Synth::honest(&c, &w);
        s.give_up = Some((k, e));
        st.inc("judged");
        st.inc("fault.synthesis_fails_proving");
        must_fail(prove(s).map(|x| x.map(|_| ())), e, format!("statement {} while proving", k))?;
        if S::SETUP {
            let k = r.below(n_st + 1);
            let e = *r.pick(&ERRS);
            let mut s = Synth::blank(&c);
            s.give_up = Some((k, e));
            st.inc("judged");
            st.inc("fault.synthesis_fails_setup");
            must_fail(mk(s).map(|x| x.map(|_| ())), e, format!("statement {} in setup", k))?;
        }
    }
    // faults stop: the same prover and keys still work
    match (prove(Synth::honest(&c, &w)), &ctx) {
        (Ok(Ok(p)), Some(x)) => {
            st.inc("judged");
            if !verify_caught::<S>(&x.vk, &S::stmt(&c, &w), &p).accepted() {
                return viol(format!("{}: proof after faults", name), "an honest proof made after failed attempts is rejected");
            }
        }
        (Ok(Ok(_)), None) => {}
        (e, _) => return viol(format!("{}: proving after faults", name), format!("{:?}", e.map(|r| r.map(|_| ())))),
    }
    Ok(())
}
/// the gadgets pass a failing allocation on
fn gadget_faults(plan: &Value, st: &mut Stats) -> Result<(), Viol> {
    let mut r = Rg::new(plan["seed"].as_u64().unwrap());
    let (fam, kind) = gadg::kind_of(&mut r);
    let (seed, data) = (r.seed(), r.seed());
    let n = match gadg::allocations(fam, kind, seed, data) {
        Some(n) => n,
        None => return Ok(()),
    };
    st.inc(&format!("gadget.{}", kind));
    for _ in 0..if n < 40 { n } else { 12 } {
        if n == 0 {
            break;
        }
        let k = 1 + r.u64() % n;
        st.inc("judged");
        st.inc("fault.gadget_allocation_fails");
        let got = gadg::failing(fam, kind, seed, data, k);
        st.ev(format!("{} {}", kind, k));
        match got {
            Ok((true, Err(zkp_r1cs::SynthesisError::DivisionByZero))) => {}
            Ok((true, Err(e))) => return viol(format!("gadget {}: another error", kind), format!("allocation {} of {} fails, reported as {:?}", k, n, e)),
            Ok((true, Ok(()))) => return viol(format!("gadget {}: failure swallowed", kind), format!("allocation {} of {} fails and the gadget succeeds", k, n)),
            Ok((false, _)) => return viol(format!("gadget {}: not deterministic", kind), format!("allocation {} of {} was not reached", k, n)),
            Err(p) => return viol(format!("gadget {}: panic at {}", kind, panic_site(&p)), format!("allocation {} of {} fails: {}", k, n, p)),
        }
    }
    Ok(())
}
impl Check for Faults {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            3000
        } else {
            30000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let mut sh = Shape::gen(&mut r);
        if r.pct(25) {
            return json!({"what": "gadget", "seed": r.seed()});
        }
        let b = wpick(&mut r, ALL);
        sh.cons = sh.cons.min(if t == Tier::Quick { 8 } else { 24 });
        if b.starts_with("snark") || b == "marlin" {
            sh.cons = sh.cons.min(6);
            sh.lc = sh.lc.min(4);
        }
        json!({"what": b, "sh": sh, "seed": r.seed(), "both": r.pct(50), "sched": Sched::gen(&mut r)})
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let name = plan["what"].as_str().unwrap();
        if name == "gadget" {
            return gadget_faults(plan, st);
        }
        let sched: Option<Sched> = serde_json::from_value(plan["sched"].clone()).expect("sched");
        Sched::install(&sched);
        let r = by_name!(name, faults(name, plan, st));
        Sched::remove(st);
        r
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let mut v = vec![];
        if let Ok(sh) = serde_json::from_value::<Shape>(plan["sh"].clone()) {
            for s in shrink_shape(&sh) {
                let mut q = plan.clone();
                q["sh"] = serde_json::to_value(s).unwrap();
                v.push(q);
            }
            if !plan["sched"].is_null() {
                let mut q = plan.clone();
                q["sched"] = Value::Null;
                v.push(q);
            }
        }
        v
    }
    fn rule(&self) -> String {
        "one run = one circuit and backend: every allocation fails once while proving, synthesis gives up at seeded statements of setup and proving, then an honest proof; or one gadget whose allocations fail; distinct = different execution traces".into()
    }
    fn components(&self) -> Value {
        json!({"real": "setup and provers of zkp-groth16, zkp-marlin, zkp-bulletproofs, zkp-spartan; zkp-gadgets over a recording constraint system", "stub": "randomness, rayon thread pool"})
    }
}
#[allow(dead_code)]
fn _unused<F: Field>() {}
