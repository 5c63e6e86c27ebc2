//! C09: a cluster of aSVC nodes.  A maintainer changes the vector; stateless nodes keep the
//! commitment and the proof of their own position current from update messages that arrive in any
//! order, late, twice, forged or not before a crash; clients ask for (aggregated) proofs.
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::util::*;
use crate::world::Sched;
use ark_bls12_381::{Bls12_381 as E, Fr, G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use zkp_asvc::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forge {
    None,
    /// the update key of another position
    OtherPos(u64),
    /// of another setup
    OtherSetup,
    /// one component replaced (0: ai, 1: ui)
    Part(u8, u64),
    /// both components moved so that the equation relating them still holds
    Consistent(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tamper {
    None,
    Value(u64),
    SwapValues,
    WrongPos(u64),
    Beyond(u64),
    DupPoint,
    ShortValues,
    LongValues,
    ShortPoints,
    Empty,
    Proof(u8, u64),
    StaleProof,
    StaleCommit,
    Reorder(u64),
    /// claim another position holds the value it does not, proof of the true set
    ExtraPos(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum OpK {
    Update { pos: u64, delta: u64, seed: u64 },
    Deliver { upd: u64, node: u64, forge: Forge },
    Sync { node: u64 },
    Crash { node: u64 },
    Restart { node: u64 },
    Ask { node: u64, tamper: Tamper },
    Aggregate { nodes: u64, tamper: Tamper, order: u64 },
    /// batch opening from the maintainer
    Batch { points: u64, tamper: Tamper },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    at: u64,
    op: OpK,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    n: usize,
    len: usize,
    setup: u64,
    values: u64,
    nodes: Vec<u64>,
    sched: Option<Sched>,
    ops: Vec<Op>,
}
fn gen(r: &mut Rg, t: Tier) -> Plan {
    let n = *r.pick(&[1usize, 2, 2, 3, 4, 4, 5, 7, 8, 8, if t == Tier::Thorough { 32 } else { 16 }]);
    let len = if r.pct(70) { n } else { r.range(1, n) };
    let nodes: Vec<u64> = (0..r.range(1, 4)).map(|_| r.seed()).collect();
    let mut ops = vec![];
    let nu = r.range(1, 6) as u64;
    for u in 0..nu {
        let at = r.below(1000) as u64;
        ops.push(Op { at, op: OpK::Update { pos: r.seed(), delta: r.below(5) as u64, seed: r.seed() } });
        let _ = u;
    }
    ops.sort_by_key(|o| o.at);
    let ups: Vec<u64> = ops.iter().map(|o| o.at).collect();
    for (u, at) in ups.iter().enumerate() {
        for k in 0..nodes.len() as u64 {
            if r.pct(10) {
                continue; // lost; the node catches up when faults stop
            }
            let d = if r.pct(25) { r.below(4000) } else { r.below(300) } as u64;
            ops.push(Op { at: at + 1 + d, op: OpK::Deliver { upd: u as u64, node: k, forge: Forge::None } });
            if r.pct(20) {
                ops.push(Op { at: at + 1 + r.below(3000) as u64, op: OpK::Deliver { upd: u as u64, node: k, forge: Forge::None } });
            }
            if r.pct(15) {
                let forge = match r.below(4) {
                    2 => Forge::Consistent(r.seed()),
                    0 => Forge::OtherPos(r.seed()),
                    1 => Forge::OtherSetup,
                    _ => Forge::Part(r.below(2) as u8, r.seed()),
                };
                ops.push(Op { at: at + 1 + r.below(500) as u64, op: OpK::Deliver { upd: u as u64, node: k, forge } });
            }
        }
    }
    let tam = |r: &mut Rg| match r.below(18) {
        0..=4 => Tamper::None,
        5 | 6 => Tamper::Value(r.seed()),
        7 => Tamper::WrongPos(r.seed()),
        8 => Tamper::Beyond(r.seed()),
        9 => Tamper::DupPoint,
        10 => Tamper::ShortValues,
        11 => Tamper::LongValues,
        12 => [Tamper::ShortPoints, Tamper::Empty, Tamper::SwapValues][r.below(3)].clone(),
        13 => Tamper::Proof(r.below(4) as u8, r.seed()),
        14 => Tamper::StaleProof,
        15 => Tamper::StaleCommit,
        16 => Tamper::ExtraPos(r.seed()),
        _ => Tamper::Reorder(r.seed()),
    }
    .clone();
    for _ in 0..r.range(3, 8) {
        let at = r.below(4000) as u64;
        let op = match r.below(10) {
            0..=3 => OpK::Ask { node: r.seed(), tamper: tam(r) },
            4..=6 => OpK::Aggregate { nodes: r.seed(), tamper: tam(r), order: r.seed() },
            _ => OpK::Batch { points: r.seed(), tamper: tam(r) },
        };
        ops.push(Op { at, op });
    }
    for k in 0..nodes.len() as u64 {
        for _ in 0..r.below(3) {
            ops.push(Op { at: r.below(4000) as u64, op: OpK::Sync { node: k } });
        }
        if r.pct(30) {
            let at = r.below(3000) as u64;
            ops.push(Op { at, op: OpK::Crash { node: k } });
            if r.pct(80) {
                ops.push(Op { at: at + 1 + r.below(900) as u64, op: OpK::Restart { node: k } });
            }
        }
    }
    ops.sort_by_key(|o| o.at);
    Plan { n, len, setup: r.range(1, 6) as u64, values: r.seed(), nodes, sched: Sched::gen(r), ops }
}

#[derive(Clone)]
struct St {
    c: Commitment<E>,
    p: Proof<E>,
    applied: BTreeSet<u64>,
}
struct Node {
    pos: u32,
    up: bool,
    mem: St,
    disk: St,
}
struct Up {
    pos: u32,
    delta: Fr,
}
struct W<'a> {
    /// judge only that nothing a client receives panics
    crash: bool,
    plan: &'a Plan,
    par: Parameters<E>,
    other: Option<Parameters<E>>,
    n: usize,
    omega: Fr,
    init: Vec<Fr>,
    ups: Vec<Up>,
    nodes: Vec<Node>,
    hist: Vec<Vec<Fr>>,
}
fn gen_of(n: usize) -> (usize, Fr) {
    let d = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    let g = match d {
        GeneralEvaluationDomain::Radix2(r) => r.group_gen,
        GeneralEvaluationDomain::MixedRadix(m) => m.group_gen,
    };
    (d.size(), g)
}
impl<'a> W<'a> {
    fn vector(&self, applied: &BTreeSet<u64>) -> Vec<Fr> {
        let mut v = self.init.clone();
        for u in applied {
            let u = &self.ups[*u as usize];
            v[u.pos as usize] += u.delta;
        }
        v
    }
    fn fresh(&self, v: &[Fr], points: &[u32]) -> Proof<E> {
        prove_pos::<E>(&self.par.proving_key, v.to_vec(), points.to_vec()).expect("prove_pos")
    }
    fn commit(&self, v: &[Fr]) -> Commitment<E> {
        commit::<E>(&self.par.proving_key, v.to_vec()).expect("commit")
    }
    fn padded(&self, v: &[Fr]) -> Vec<Fr> {
        let mut v = v.to_vec();
        v.resize(self.n, Fr::zero());
        v
    }
    /// the node's local state must equal a recomputation from scratch
    fn check_node(&self, k: usize, st: &mut Stats) -> Result<(), Viol> {
        let nd = &self.nodes[k];
        let v = self.vector(&nd.mem.applied);
        st.inc("judged");
        if nd.mem.c != self.commit(&v) {
            return viol("asvc: updated commitment differs from a fresh commitment", format!("node {} after updates {:?}", k, nd.mem.applied));
        }
        if nd.mem.p != self.fresh(&v, &[nd.pos]) {
            return viol("asvc: updated proof differs from a fresh proof", format!("node {} position {} after updates {:?}", k, nd.pos, nd.mem.applied));
        }
        Ok(())
    }
    fn apply(&mut self, u: u64, k: usize, forge: &Forge, st: &mut Stats) -> Result<(), Viol> {
        if u as usize >= self.ups.len() || !self.nodes[k].up {
            return Ok(());
        }
        let up = &self.ups[u as usize];
        let keys = &self.par.proving_key.update_keys;
        let genuine = keys[up.pos as usize].clone();
        let mut upk = genuine.clone();
        match forge {
            Forge::None => {}
            Forge::OtherPos(s) => upk = keys[(*s % keys.len() as u64) as usize].clone(),
            Forge::OtherSetup => {
                let o = self.other.get_or_insert_with(|| key_gen::<E, _>(self.plan.n, &mut SimRng::new(self.plan.setup ^ 0xabc)).expect("key_gen"));
                upk = o.proving_key.update_keys[up.pos as usize].clone()
            }
            Forge::Consistent(s) => {
                // (l_i - 1) G = (tau - w^i) u_i with l_i = a_i w^i / n
                let d = Fr::rand(&mut SimRng::new(*s));
                let w = self.omega.pow([up.pos as u64]);
                let c = w / Fr::from(self.par.verification_key.powers_of_g1.len() as u64 - 1);
                let g = &self.par.verification_key.powers_of_g1;
                let step = g[1].into_projective() - g[0].mul(w);
                upk.ui = (upk.ui.into_projective() + g[0].mul(d)).into_affine();
                upk.ai = (upk.ai.into_projective() + step.into_affine().mul(d / c)).into_affine();
            }
            Forge::Part(0, s) => upk.ai = G1Projective::rand(&mut SimRng::new(*s)).into_affine(),
            Forge::Part(_, s) => upk.ui = G1Projective::rand(&mut SimRng::new(*s)).into_affine(),
        }
        let ok = match catch(|| verify_upk::<E>(&self.par.verification_key, up.pos, &upk, self.omega)) {
            Ok(r) => r.unwrap_or(false),
            Err(p) => {
                st.ev(format!("verify_upk panic {}", p));
                if self.crash {
                    return viol(format!("asvc: verify_upk panics at {}", panic_site(&p)), p);
                }
                false
            }
        };
        st.inc("judged");
        st.inc("event.update-key-checked");
        if upk == genuine {
            if !ok {
                return viol("asvc: genuine update key rejected", format!("position {}", up.pos));
            }
        } else {
            st.inc("fault.forged-update-key");
            if ok {
                return viol("asvc: foreign update key accepted", format!("position {} forge {:?}", up.pos, forge));
            }
            return Ok(());
        }
        if self.nodes[k].mem.applied.contains(&u) {
            st.inc("fault.duplicate-suppressed");
            return Ok(());
        }
        let delta = up.delta;
        let (pi, pj) = (up.pos, self.nodes[k].pos);
        let key_j = keys[pj as usize].clone();
        let nd = &self.nodes[k];
        let r = catch(|| {
            let c = update_commit::<E>(&nd.mem.c, delta, pi, &upk, self.omega, self.n).expect("update_commit");
            let p = update_proof::<E>(&nd.mem.p, delta, pj, pi, &key_j, &upk, self.omega, self.n).expect("update_proof");
            (c, p)
        });
        match r {
            Ok((c, p)) => {
                if u > 0 && !nd.mem.applied.contains(&(u - 1)) {
                    st.inc("fault.updates-out-of-order");
                }
                let nd = &mut self.nodes[k];
                nd.mem.c = c;
                nd.mem.p = p;
                nd.mem.applied.insert(u);
                st.inc("event.update-applied");
                st.ev(format!("node{} applied {} -> {:016x}", k, u, fnv(format!("{:?}", (nd.mem.c.commit, nd.mem.p.w)).as_bytes())));
            }
            Err(p) => return viol("asvc: applying an update panics", p),
        }
        self.check_node(k, st)
    }
    /// verify and compare with the exact rule: positions valid and distinct, one value each, every
    /// value right, and the (unique) opening proof
    #[allow(clippy::too_many_arguments)]
    fn ask(&mut self, v: Vec<Fr>, mut c: Commitment<E>, mut points: Vec<u32>, mut p: Proof<E>, tamper: &Tamper, what: &str, st: &mut Stats) -> Result<(), Viol> {
        let full = self.padded(&v);
        let mut vals: Vec<Fr> = points.iter().map(|i| full[*i as usize]).collect();
        let mut truth = full.clone();
        let mut tag = serde_json::to_value(tamper).map(|v| v.to_string()).unwrap_or_default();
        tag = tag.split(|c: char| c == ':' || c == '[').next().unwrap_or("").replace(['"', '{', '}'], "");
        match tamper {
            Tamper::None => {}
            Tamper::Value(s) => {
                if vals.is_empty() {
                    return Ok(());
                }
                let k = (*s % vals.len() as u64) as usize;
                vals[k] = match s % 5 {
                    0 => vals[k] + Fr::one(),
                    1 => Fr::zero(),
                    2 => -vals[k],
                    _ => Fr::rand(&mut SimRng::new(*s)),
                }
            }
            Tamper::SwapValues => {
                if vals.len() > 1 {
                    vals.swap(0, 1)
                }
            }
            Tamper::WrongPos(s) => {
                if !points.is_empty() {
                    let k = (*s % points.len() as u64) as usize;
                    points[k] = (s / 7 % self.n as u64) as u32;
                }
            }
            Tamper::Beyond(s) => {
                if !points.is_empty() {
                    let k = (*s % points.len() as u64) as usize;
                    points[k] += self.n as u32 * (1 + (*s / 11 % 3) as u32);
                }
            }
            Tamper::DupPoint => {
                if points.is_empty() {
                    return Ok(());
                }
                points.push(points[0]);
                vals.push(vals[0]);
            }
            Tamper::ShortValues => {
                vals.pop();
            }
            Tamper::LongValues => vals.push(Fr::one()),
            Tamper::ShortPoints => {
                points.pop();
            }
            Tamper::Empty => {
                if what != "batch" {
                    points.clear();
                    vals.clear();
                }
            }
            Tamper::Proof(k, s) => {
                p.w = match k {
                    0 => G1Projective::rand(&mut SimRng::new(*s)).into_affine(),
                    1 => G1Affine::zero(),
                    2 => -p.w,
                    _ => (p.w.into_projective() + G1Affine::prime_subgroup_generator().into_projective()).into_affine(),
                }
            }
            Tamper::StaleProof => {
                let old = self.hist[(self.hist.len() - 1) / 2].clone();
                p = self.fresh(&old, &points);
            }
            Tamper::StaleCommit => {
                let old = self.hist[(self.hist.len() - 1) / 2].clone();
                c = self.commit(&old);
                truth = self.padded(&old);
            }
            Tamper::Reorder(s) => {
                let mut idx: Vec<usize> = (0..points.len()).collect();
                Rg::new(*s).shuffle(&mut idx);
                points = idx.iter().map(|i| points[*i]).collect();
                vals = idx.iter().map(|i| vals[*i]).collect();
            }
            Tamper::ExtraPos(s) => {
                let q = (*s % self.n as u64) as u32;
                if points.contains(&q) {
                    return Ok(());
                }
                points.push(q);
                vals.push(if s % 2 == 0 { Fr::zero() } else { full[q as usize] });
            }
        }
        let distinct = points.iter().collect::<BTreeSet<_>>().len() == points.len();
        let wellformed = points.len() == vals.len() && distinct && points.iter().all(|i| (*i as usize) < self.n);
        let expect = wellformed && points.iter().zip(&vals).all(|(i, v)| truth[*i as usize] == *v) && p == self.fresh(&truth, &points);
        let r = catch(|| verify_pos::<E>(&self.par.verification_key, &c, vals.clone(), points.clone(), &p, self.omega));
        let got = match &r {
            Ok(Ok(b)) => *b,
            _ => false,
        };
        st.inc("judged");
        st.inc("event.verify");
        if *tamper != Tamper::None {
            st.inc(&format!("fault.{}", tag));
        }
        st.inc(&format!("verdict.{}", if r.is_err() { "panic" } else if got { "accept" } else { "reject" }));
        st.ev(format!("{} {} {:?} -> {}", what, tag, points, got));
        if let (true, Err(p)) = (self.crash, &r) {
            return viol(format!("asvc: verify_pos panics at {}", panic_site(p)), format!("{:?} {}", tamper, p));
        }
        if got != expect && !self.crash {
            return viol(
                format!("asvc: {} {} ({})", what, if got { "accepted though false" } else { "true claim rejected" }, tag),
                format!("n {} points {:?} tamper {:?}: verifier said {:?}, the vector says {}", self.n, points, tamper, r, expect),
            );
        }
        Ok(())
    }
    fn exec(&mut self, st: &mut Stats) -> Result<(), Viol> {
        let ops = self.plan.ops.clone();
        let nn = self.nodes.len();
        let mut inter = 0;
        for o in &ops {
            inter = mix2(inter, hstr(&format!("{:?}", o.op)));
            match &o.op {
                OpK::Update { pos, delta, seed } => {
                    let pos = (*pos % self.init.len() as u64) as u32;
                    let cur = self.hist.last().unwrap()[pos as usize];
                    let d = match delta {
                        0 => Fr::zero(),
                        1 => -cur,
                        2 => Fr::one(),
                        _ => Fr::rand(&mut SimRng::new(*seed)),
                    };
                    self.ups.push(Up { pos, delta: d });
                    let mut v = self.hist.last().unwrap().clone();
                    v[pos as usize] += d;
                    self.hist.push(v);
                    st.ev(format!("update {} of position {}", self.ups.len() - 1, pos));
                }
                OpK::Deliver { upd, node, forge } => self.apply(*upd, *node as usize % nn, forge, st)?,
                OpK::Sync { node } => {
                    let nd = &mut self.nodes[*node as usize % nn];
                    if nd.up {
                        nd.disk = nd.mem.clone();
                    }
                }
                OpK::Crash { node } => {
                    let nd = &mut self.nodes[*node as usize % nn];
                    if nd.up {
                        nd.up = false;
                        st.inc("fault.node-crash");
                        st.add("fault.updates-lost-in-crash", (nd.mem.applied.len() - nd.disk.applied.len()) as u64);
                        nd.mem = nd.disk.clone();
                        st.ev(format!("crash node{}", node));
                    }
                }
                OpK::Restart { node } => {
                    let nd = &mut self.nodes[*node as usize % nn];
                    if !nd.up {
                        nd.up = true;
                        st.inc("event.node-restart");
                    }
                }
                OpK::Ask { node, tamper } => {
                    let k = *node as usize % nn;
                    if self.nodes[k].up {
                        let v = self.vector(&self.nodes[k].mem.applied);
                        let (c, p, pos) = (self.nodes[k].mem.c.clone(), self.nodes[k].mem.p.clone(), self.nodes[k].pos);
                        self.ask(v, c, vec![pos], p, tamper, "single", st)?;
                    }
                }
                OpK::Aggregate { nodes, tamper, order } => {
                    // nodes that have applied the same updates, at distinct positions
                    let mut r = Rg::new(*nodes);
                    let lead = r.below(nn);
                    let set = self.nodes[lead].mem.applied.clone();
                    let mut idx: Vec<usize> = vec![];
                    for k in 0..nn {
                        let nd = &self.nodes[k];
                        if nd.up && nd.mem.applied == set && !idx.iter().any(|j| self.nodes[*j].pos == nd.pos) {
                            idx.push(k);
                        }
                    }
                    if idx.is_empty() {
                        continue;
                    }
                    Rg::new(*order).shuffle(&mut idx);
                    let v = self.vector(&set);
                    let points: Vec<u32> = idx.iter().map(|k| self.nodes[*k].pos).collect();
                    let proofs: Vec<Proof<E>> = idx.iter().map(|k| self.nodes[*k].mem.p.clone()).collect();
                    let agg = match catch(|| aggregate_proofs::<E>(points.clone(), proofs, self.omega)) {
                        Ok(Ok(p)) => p,
                        e => return viol("asvc: aggregation failed", format!("{:?}", e.map(|r| r.map(|_| ())))),
                    };
                    st.inc("event.aggregate");
                    st.add("probe.aggregated-proofs", points.len() as u64);
                    if agg != self.fresh(&v, &points) {
                        return viol("asvc: aggregated proof differs from a fresh batch proof", format!("points {:?}", points));
                    }
                    let c = self.nodes[lead].mem.c.clone();
                    self.ask(v, c, points, agg, tamper, "aggregate", st)?;
                }
                OpK::Batch { points, tamper } => {
                    let v = self.hist.last().unwrap().clone();
                    let mut all: Vec<u32> = (0..self.n as u32).collect();
                    let mut r = Rg::new(*points);
                    r.shuffle(&mut all);
                    let k = if r.pct(15) { self.n } else { r.range(1, self.n) };
                    all.truncate(k);
                    let p = match catch(|| self.fresh(&v, &all)) {
                        Ok(p) => p,
                        Err(e) => return viol("asvc: batch opening failed", e),
                    };
                    let c = self.commit(&v);
                    self.ask(v, c, all, p, tamper, "batch", st)?;
                }
            }
        }
        st.set("interleavings", inter);
        st.add("sim_ms", ops.last().map(|o| o.at).unwrap_or(0));
        // faults stop: nodes restart and receive what they miss, in an order of their own
        for k in 0..nn {
            self.nodes[k].up = true;
            let mut miss: Vec<u64> = (0..self.ups.len() as u64).filter(|u| !self.nodes[k].mem.applied.contains(u)).collect();
            Rg::new(self.plan.values ^ k as u64).shuffle(&mut miss);
            for u in miss {
                self.apply(u, k, &Forge::None, st)?;
            }
            self.check_node(k, st)?;
            let v = self.hist.last().unwrap().clone();
            if self.nodes[k].mem.c != self.commit(&v) {
                return viol("asvc: node did not converge", format!("node {}", k));
            }
            let (c, p, pos) = (self.nodes[k].mem.c.clone(), self.nodes[k].mem.p.clone(), self.nodes[k].pos);
            self.ask(v, c, vec![pos], p, &Tamper::None, "single", st)?;
        }
        Ok(())
    }
}

pub struct Asvc(pub bool);
impl Check for Asvc {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            800
        } else {
            20000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        serde_json::to_value(gen(&mut Rg::new(mix2(seed, k)), t)).unwrap()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let plan: Plan = serde_json::from_value(plan.clone()).expect("plan");
        Sched::install(&plan.sched);
        let r = (|| {
            let par = match catch(|| key_gen::<E, _>(plan.n, &mut SimRng::new(plan.setup))) {
                Ok(Ok(p)) => p,
                e => return viol("asvc: key generation failed", format!("{:?}", e.map(|r| r.map(|_| ())))),
            };
            let (n, omega) = gen_of(plan.n);
            let mut r = Rg::new(plan.values);
            let init: Vec<Fr> = (0..plan.len)
                .map(|_| match r.below(4) {
                    0 => Fr::zero(),
                    1 => Fr::from(r.below(4) as u64),
                    _ => Fr::rand(&mut SimRng::new(r.u64())),
                })
                .collect();
            let mut w = W { crash: self.0, plan: &plan, par, other: None, n, omega, hist: vec![init.clone()], init, ups: vec![], nodes: vec![] };
            let made = catch(|| {
                let c = w.commit(&w.init);
                plan.nodes
                    .iter()
                    .map(|x| {
                        let pos = (*x % plan.len as u64) as u32;
                        let s = St { c: c.clone(), p: w.fresh(&w.init, &[pos]), applied: Default::default() };
                        Node { pos, up: true, mem: s.clone(), disk: s }
                    })
                    .collect::<Vec<_>>()
            });
            w.nodes = match made {
                Ok(v) => v,
                Err(e) => return viol("asvc: committing or proving failed", e),
            };
            st.ev(format!("setup n {} commitment {:?}", n, w.nodes[0].mem.c.commit));
            w.exec(st)
        })();
        Sched::remove(st);
        r
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let mut v: Vec<Plan> = vec![];
        let n = p.ops.len();
        for (a, b) in [(0, n / 2), (n / 2, n)] {
            if b > a + 1 {
                let mut q = p.clone();
                q.ops.drain(a..b);
                v.push(q);
            }
        }
        for i in (0..n).rev() {
            let mut q = p.clone();
            q.ops.remove(i);
            v.push(q);
        }
        if p.nodes.len() > 1 {
            let mut q = p.clone();
            q.nodes.pop();
            v.push(q);
        }
        if p.sched.is_some() {
            v.push(Plan { sched: None, ..p.clone() });
        }
        if p.n > 1 {
            v.push(Plan { n: p.n / 2, len: p.len.min(p.n / 2).max(1), ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }
    fn rule(&self) -> String {
        "one run = one setup, an initial vector, update messages delivered to nodes in a seeded order with loss, duplication, forging, crashes, and client questions (single, aggregated, batch) with tampering; \
         every node state is compared with recomputation from the applied updates and every verdict with the vector; non-trivial = something was judged; distinct = different execution traces"
            .into()
    }
    fn components(&self) -> Value {
        json!({"real":"zkp-asvc (key_gen, commit, prove_pos, verify_pos, verify_upk, update_commit, update_proof, aggregate_proofs), ark pairing and FFT, rayon adaptors",
               "stub":"network, node disks, clients and the rayon thread pool are the simulator's"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["opening proofs are unique, so the exact rule is equality with a fresh proof".into(), "applications suppress duplicates by update number (as the property states)".into()]
    }
}
