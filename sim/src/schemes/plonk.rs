//! PLONK over generated composer programs; the transcript digest is a recording one.
use super::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use crate::circ::K;

use std::cell::RefCell;
use std::collections::HashMap;
use zkp_plonk as zp;

pub type Pc = MarlinKZG10<Bls12_381, DensePolynomial<Fr>>;
pub type PProof = zp::Proof<Fr, Pc>;
pub type P = zp::Plonk<Fr, crate::tapdigest::TapDigest, Pc>;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Gate {
    /// ql*l + qr*r - o + qa*aux + qc + pi == 0   (o is solved)
    Add { l: (usize, K), r: (usize, K), aux: Option<(usize, K)>, qc: K, pi: bool },
    Mul { l: usize, r: usize, aux: Option<(usize, K)>, qm: K, qc: K, pi: bool },
    /// o given as an existing variable: pi absorbs the difference
    AddTo { l: (usize, K), r: (usize, K), o: usize, qc: K },
    Const { v: usize },
    Pub { v: usize, qc: K },
    Equal { v: usize },
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct PInst {
    pub free: usize,
    pub gates: Vec<Gate>,
    /// fixed circuit constants for Const gates come from this assignment seed
    pub const_seed: u64,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct PSh {
    pub seed: u64,
    pub free: usize,
    pub gates: usize,
}
#[derive(Clone, Debug)]
pub struct PWit {
    pub vals: Vec<Fr>,
    pub pi: Vec<Fr>,
}
pub fn ks() -> [Fr; 4] {
    [Fr::one(), Fr::from(7u64), Fr::from(13u64), Fr::from(17u64)]
}
impl PInst {
    pub fn gen(sh: &PSh) -> PInst {
        let mut r = Rg::new(sh.seed);
        let mut nv = sh.free.max(1);
        let free = nv;
        let mut gates = vec![];
        while gates.len() < sh.gates.max(1) {
            let v = |r: &mut Rg| if r.pct(40) { nv - 1 - r.below(nv.min(3)) } else { r.below(nv) };
            let aux = if r.pct(40) { Some((v(&mut r), K::gen(&mut r))) } else { None };
            let g = match r.below(10) {
                0..=2 => Gate::Add {
                    l: (v(&mut r), K::gen(&mut r)),
                    r: (v(&mut r), K::gen(&mut r)),
                    aux,
                    qc: K::gen(&mut r),
                    pi: r.pct(30),
                },
                3..=6 => Gate::Mul { l: v(&mut r), r: v(&mut r), aux, qm: K::gen(&mut r), qc: K::gen(&mut r), pi: r.pct(20) },
                7 => Gate::AddTo { l: (v(&mut r), K::gen(&mut r)), r: (v(&mut r), K::gen(&mut r)), o: v(&mut r), qc: K::gen(&mut r) },
                8 => Gate::Pub { v: v(&mut r), qc: K::gen(&mut r) },
                _ => {
                    if r.pct(50) {
                        Gate::Const { v: r.below(free) }
                    } else {
                        Gate::Equal { v: v(&mut r) }
                    }
                }
            };
            if matches!(g, Gate::Add { .. } | Gate::Mul { .. } | Gate::Equal { .. }) {
                nv += 1;
            }
            gates.push(g);
        }
        PInst { free, gates, const_seed: r.seed() }
    }
    fn consts(&self) -> Vec<bool> {
        let mut c = vec![false; self.free];
        for g in &self.gates {
            if let Gate::Const { v } = g {
                c[*v] = true
            }
        }
        c
    }
    fn const_val(&self, v: usize) -> Fr {
        let mut r = Rg::new(mix2(self.const_seed, v as u64));
        match r.below(3) {
            0 => Fr::zero(),
            1 => Fr::from(r.below(9) as u64),
            _ => Fr::rand(&mut SimRng::new(r.u64())),
        }
    }
    pub fn wit(&self, seed: u64) -> PWit {
        let mut r = Rg::new(seed);
        let cs = self.consts();
        let mut vals: Vec<Fr> = (0..self.free)
            .map(|i| {
                if cs[i] {
                    self.const_val(i)
                } else {
                    match r.below(4) {
                        0 => Fr::zero(),
                        1 => Fr::from(r.below(4) as u64),
                        _ => Fr::rand(&mut SimRng::new(r.u64())),
                    }
                }
            })
            .collect();
        let mut pi = vec![];
        for g in &self.gates {
            let p = |r: &mut Rg, on: bool| if on { Fr::rand(&mut SimRng::new(r.u64())) } else { Fr::zero() };
            match g {
                Gate::Add { l, r: rr, aux, qc, pi: on } => {
                    let q = p(&mut r, *on);
                    let mut o = l.1.f::<Fr>() * vals[l.0] + rr.1.f::<Fr>() * vals[rr.0] + qc.f::<Fr>() + q;
                    if let Some((a, k)) = aux {
                        o += k.f::<Fr>() * vals[*a];
                    }
                    vals.push(o);
                    pi.push(q);
                }
                Gate::Mul { l, r: rr, aux, qm, qc, pi: on } => {
                    let q = p(&mut r, *on);
                    let mut o = qm.f::<Fr>() * vals[*l] * vals[*rr] + qc.f::<Fr>() + q;
                    if let Some((a, k)) = aux {
                        o += k.f::<Fr>() * vals[*a];
                    }
                    vals.push(o);
                    pi.push(q);
                }
                Gate::AddTo { l, r: rr, o, qc } => {
                    pi.push(vals[*o] - (l.1.f::<Fr>() * vals[l.0] + rr.1.f::<Fr>() * vals[rr.0] + qc.f::<Fr>()));
                }
                Gate::Const { .. } => pi.push(Fr::zero()),
                // var - qc - pi' == 0 with the stored public input -pi'
                Gate::Pub { v, qc } => pi.push(-(vals[*v] - qc.f::<Fr>())),
                Gate::Equal { v } => {
                    let x = vals[*v];
                    vals.push(x);
                    pi.push(Fr::zero());
                }
            }
        }
        PWit { vals, pi }
    }
    /// reference: does every gate hold (variables are shared, so copy constraints hold by construction)?
    pub fn holds(&self, w: &PWit) -> bool {
        let mut nv = self.free;
        self.gates.iter().enumerate().all(|(k, g)| {
            let pi = w.pi[k];
            match g {
                Gate::Add { l, r, aux, qc, .. } => {
                    nv += 1;
                    let mut o = l.1.f::<Fr>() * w.vals[l.0] + r.1.f::<Fr>() * w.vals[r.0] + qc.f::<Fr>() + pi;
                    if let Some((a, k)) = aux {
                        o += k.f::<Fr>() * w.vals[*a];
                    }
                    o == w.vals[nv - 1]
                }
                Gate::Mul { l, r, aux, qm, qc, .. } => {
                    nv += 1;
                    let mut o = qm.f::<Fr>() * w.vals[*l] * w.vals[*r] + qc.f::<Fr>() + pi;
                    if let Some((a, k)) = aux {
                        o += k.f::<Fr>() * w.vals[*a];
                    }
                    o == w.vals[nv - 1]
                }
                Gate::AddTo { l, r, o, qc } => {
                    l.1.f::<Fr>() * w.vals[l.0] + r.1.f::<Fr>() * w.vals[r.0] + qc.f::<Fr>() + pi == w.vals[*o]
                }
                Gate::Const { v } => w.vals[*v] - self.const_val(*v) + pi == Fr::zero(),
                Gate::Pub { v, qc } => w.vals[*v] - qc.f::<Fr>() + pi == Fr::zero(),
                Gate::Equal { v } => {
                    nv += 1;
                    w.vals[*v] == w.vals[nv - 1] && pi == Fr::zero()
                }
            }
        })
    }
    pub fn compose(&self, w: &PWit) -> zp::Composer<Fr> {
        self.compose_split(w, None)
    }
    /// variables in the wire positions of gate `k`, its output (of index `nv`) last
    fn uses(g: &Gate, nv: usize) -> Vec<usize> {
        match g {
            Gate::Add { l, r, aux, .. } => [Some(l.0), Some(r.0), aux.as_ref().map(|a| a.0), Some(nv)].iter().flatten().copied().collect(),
            Gate::Mul { l, r, aux, .. } => [Some(*l), Some(*r), aux.as_ref().map(|a| a.0), Some(nv)].iter().flatten().copied().collect(),
            Gate::AddTo { l, r, o, .. } => vec![l.0, r.0, *o],
            Gate::Const { v } | Gate::Pub { v, .. } => vec![*v],
            Gate::Equal { v } => vec![*v, nv],
        }
    }
    /// `split`: in this gate the use at this position is a variable of its own, off by the given amount
    pub fn compose_split(&self, w: &PWit, split: Option<(usize, usize, Fr)>) -> zp::Composer<Fr> {
        let mut cs = zp::Composer::new();
        let mut vars: Vec<_> = (0..self.free).map(|i| cs.alloc_and_assign(w.vals[i])).collect();
        for (k, g) in self.gates.iter().enumerate() {
            let pi = w.pi[k];
            if let Some((sk, pos, d)) = split {
                if sk == k {
                    // same gate over fresh variables for one position
                    let nv = vars.len();
                    if matches!(g, Gate::Add { .. } | Gate::Mul { .. } | Gate::Equal { .. }) {
                        let o = cs.alloc_and_assign(w.vals[nv]);
                        vars.push(o);
                    }
                    let ids = Self::uses(g, nv);
                    let mut u: Vec<_> = ids.iter().map(|i| vars[*i]).collect();
                    u[pos] = cs.alloc_and_assign(w.vals[ids[pos]] + d);
                    match g {
                        Gate::Add { l, r, aux, qc, .. } => cs.create_add_gate((u[0], l.1.f()), (u[1], r.1.f()), *u.last().unwrap(), aux.as_ref().map(|(_, k)| (u[2], k.f())), qc.f(), pi),
                        Gate::Mul { aux, qm, qc, .. } => cs.create_mul_gate(u[0], u[1], *u.last().unwrap(), aux.as_ref().map(|(_, k)| (u[2], k.f())), qm.f(), qc.f(), pi),
                        Gate::AddTo { l, r, qc, .. } => cs.create_add_gate((u[0], l.1.f()), (u[1], r.1.f()), u[2], None, qc.f(), pi),
                        Gate::Const { v } => cs.constrain_to_constant(u[0], self.const_val(*v), -pi),
                        Gate::Pub { qc, .. } => cs.constrain_to_constant(u[0], qc.f(), -pi),
                        Gate::Equal { .. } => cs.assert_equal(u[0], u[1]),
                    }
                    continue;
                }
            }
            match g {
                Gate::Add { l, r, aux, qc, .. } => {
                    let o = cs.alloc_and_assign(w.vals[vars.len()]);
                    let a = aux.as_ref().map(|(a, k)| (vars[*a], k.f()));
                    cs.create_add_gate((vars[l.0], l.1.f()), (vars[r.0], r.1.f()), o, a, qc.f(), pi);
                    vars.push(o);
                }
                Gate::Mul { l, r, aux, qm, qc, .. } => {
                    let o = cs.alloc_and_assign(w.vals[vars.len()]);
                    let a = aux.as_ref().map(|(a, k)| (vars[*a], k.f()));
                    cs.create_mul_gate(vars[*l], vars[*r], o, a, qm.f(), qc.f(), pi);
                    vars.push(o);
                }
                Gate::AddTo { l, r, o, qc } => {
                    cs.create_add_gate((vars[l.0], l.1.f()), (vars[r.0], r.1.f()), vars[*o], None, qc.f(), pi)
                }
                Gate::Const { v } => cs.constrain_to_constant(vars[*v], self.const_val(*v), -pi),
                Gate::Pub { v, qc } => cs.constrain_to_constant(vars[*v], qc.f(), -pi),
                Gate::Equal { v } => {
                    let o = cs.alloc_and_assign(w.vals[vars.len()]);
                    cs.assert_equal(vars[*v], o);
                    vars.push(o);
                }
            }
        }
        cs
    }
}
pub type PSrs = zp::UniversalParams<Fr, Pc>;
thread_local! {
    static SRS: RefCell<HashMap<(u64, usize), &'static PSrs>> = Default::default();
}
pub fn plonk_srs(seed: u64, deg: usize) -> &'static PSrs {
    SRS.with(|s| {
        *s.borrow_mut().entry((seed, deg)).or_insert_with(|| {
            let mut rng = SimRng::new(seed);
            Box::leak(Box::new(P::setup(deg, &mut rng).map_err(|e| format!("{:?}", e)).expect("setup")))
        })
    })
}
pub const PLONK_DEG: usize = 1024;
pub struct Plonk;
impl Scheme for Plonk {
    const NAME: &'static str = "plonk";
    const CURVE: CurveId = CurveId::Bls;
    const ZK: bool = false; // this implementation adds no blinding (no hiding bounds); nothing claims it
    type F = Fr;
    type Sh = PSh;
    type Inst = PInst;
    type Wit = PWit;
    type Pk = zp::ProverKey<Fr, Pc>;
    type Vk = zp::VerifierKey<Fr, Pc>;
    fn shape(r: &mut Rg, big: bool) -> PSh {
        PSh {
            seed: r.seed(),
            free: r.range(1, 5),
            gates: match r.below(8) {
                0 => r.range(1, 3),
                1 => *r.pick(&[4usize, 7, 8, 9]),
                2 => *r.pick(&[15usize, 16, 17]),
                _ => r.range(3, if big { 40 } else { 12 }),
            },
        }
    }
    fn shrink(sh: &PSh) -> Vec<PSh> {
        let mut v = vec![];
        for g in [1, 2, 4, sh.gates / 2, sh.gates.saturating_sub(1)] {
            if g >= 1 && g < sh.gates {
                v.push(PSh { gates: g, ..sh.clone() });
            }
        }
        if sh.free > 1 {
            v.push(PSh { free: 1, ..sh.clone() });
        }
        v
    }
    fn inst(sh: &PSh) -> PInst {
        PInst::gen(sh)
    }
    fn variant(i: &PInst, seed: u64) -> PInst {
        let mut r = Rg::new(seed);
        let mut v = i.clone();
        let k = r.below(v.gates.len());
        let bump = |k: &K| match k {
            K::I(x) => K::I(x + 1),
            K::R(s) => K::R(s ^ 1),
        };
        match &mut v.gates[k] {
            Gate::Add { l, qc, .. } | Gate::AddTo { l, qc, .. } => {
                if r.pct(50) {
                    l.1 = bump(&l.1)
                } else {
                    *qc = bump(qc)
                }
            }
            Gate::Mul { qm, qc, .. } => {
                if r.pct(50) {
                    *qm = bump(qm)
                } else {
                    *qc = bump(qc)
                }
            }
            Gate::Pub { qc, .. } => *qc = bump(qc),
            Gate::Const { .. } => v.const_seed ^= 0x55,
            Gate::Equal { v: x } => *x = if *x == 0 { i.free - 1 } else { *x - 1 },
        }
        v
    }
    fn wit(i: &PInst, seed: u64) -> PWit {
        i.wit(seed)
    }
    fn lie(i: &PInst, w: &PWit, seed: u64) -> PWit {
        let mut r = Rg::new(seed);
        let mut w = w.clone();
        let _ = i;
        let d = match r.below(3) {
            0 => Fr::one(),
            1 => -Fr::one(),
            _ => Fr::rand(&mut SimRng::new(r.u64())),
        };
        if r.pct(60) {
            let k = r.below(w.vals.len());
            w.vals[k] += d;
        } else {
            let k = r.below(w.pi.len());
            w.pi[k] += d;
        }
        w
    }
    fn zero_hidden(_i: &PInst, w: &PWit) -> PWit {
        PWit { vals: vec![Fr::zero(); w.vals.len()], pi: w.pi.clone() }
    }
    fn holds(i: &PInst, w: &PWit) -> bool {
        i.holds(w)
    }
    fn stmt(_i: &PInst, w: &PWit) -> Stmt<Fr> {
        vec![w.pi.clone()]
    }
    fn with_stmt(_i: &PInst, w: &PWit, s: &Stmt<Fr>) -> Option<PWit> {
        if s.len() != 1 || s[0].len() != w.pi.len() {
            return None;
        }
        Some(PWit { vals: w.vals.clone(), pi: s[0].clone() })
    }
    fn setup(i: &PInst, srs: u64, ws: u64, _rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        // keys come from the structure only: composed here with the values of another assignment
        let cs = i.compose(&i.wit(ws));
        let (pk, vk) = P::keygen(plonk_srs(srs, PLONK_DEG), &cs, ks()).map_err(|e| format!("{:?}", e))?;
        Ok(Ctx { pk, vk, first: None })
    }
    fn prove(pk: &Self::Pk, i: &PInst, w: &PWit, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        let cs = i.compose(w);
        if cs.public_inputs() != &w.pi[..] {
            return Err("public_inputs() differs from the public inputs composed".into());
        }
        P::prove(pk, &cs, rng).map(|p| enc(&p)).map_err(|e| format!("{:?}", e))
    }
    fn cheat(pk: &Self::Pk, i: &PInst, w: &PWit, kind: u64, seed: u64, rng: &mut SimRng) -> Option<(String, PWit, Result<Vec<u8>, String>)> {
        if kind % 2 == 0 {
            Self::foreseen(pk, i, w, seed, rng)
        } else {
            Self::split_wires(pk, i, w, seed, rng)
        }
    }
    fn verify(vk: &Self::Vk, s: &Stmt<Fr>, p: &[u8]) -> Verdict {
        let proof: zp::Proof<Fr, Pc> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        verdict(P::verify(vk, &s[0], proof))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(vk)
    }
    fn vk_load(_i: &PInst, b: &[u8]) -> Result<Self::Vk, String> {
        dec(b)
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        let (c, l) = canon_of::<zp::Proof<Fr, Pc>>(b)?;
        // the commitment library's batch proof has room for a list of evaluations that its
        // Marlin-KZG variant neither fills nor reads: a proof with a list is the same proof
        let mut p: zp::Proof<Fr, Pc> = dec(b)?;
        if p.pc_proof.evals.take().is_some() {
            return canon_of::<zp::Proof<Fr, Pc>>(&enc(&p));
        }
        Ok((c, l))
    }
}
impl Plonk {
    /// Puts different values on two uses of one variable and claims the public input that makes
    /// the gate hold.
    fn split_wires(pk: &zp::ProverKey<Fr, Pc>, i: &PInst, w: &PWit, seed: u64, rng: &mut SimRng) -> Option<(String, PWit, Result<Vec<u8>, String>)> {
        let mut r = Rg::new(seed);
        let mut nv = i.free;
        let mut all = vec![]; // (gate, position, variable)
        for (k, g) in i.gates.iter().enumerate() {
            for (pos, v) in PInst::uses(g, nv).into_iter().enumerate() {
                all.push((k, pos, v));
            }
            if matches!(g, Gate::Add { .. } | Gate::Mul { .. } | Gate::Equal { .. }) {
                nv += 1;
            }
        }
        let n = |v: usize| all.iter().filter(|u| u.2 == v).count();
        // a gate whose public input is a free choice, a variable used elsewhere as well
        let mut cand: Vec<_> = all.iter().filter(|u| n(u.2) >= 2 && !matches!(i.gates[u.0], Gate::Equal { .. })).collect();
        if r.pct(50) {
            let rare: Vec<_> = cand.iter().filter(|u| n(u.2) == 2).copied().collect();
            if !rare.is_empty() {
                cand = rare;
            }
        }
        if cand.is_empty() {
            return None;
        }
        let &&(k, pos, _) = r.pick(&cand);
        let d = Fr::from(1 + r.below(6) as u64);
        let mut w2 = w.clone();
        let mut nv = i.free;
        for g in &i.gates[..k] {
            if matches!(g, Gate::Add { .. } | Gate::Mul { .. } | Gate::Equal { .. }) {
                nv += 1;
            }
        }
        let ids = PInst::uses(&i.gates[k], nv);
        let mut u: Vec<Fr> = ids.iter().map(|x| w.vals[*x]).collect();
        u[pos] += d;
        w2.pi[k] = match &i.gates[k] {
            Gate::Add { l, r, aux, qc, .. } => {
                let mut o = l.1.f::<Fr>() * u[0] + r.1.f::<Fr>() * u[1] + qc.f::<Fr>();
                if let Some((_, c)) = aux {
                    o += c.f::<Fr>() * u[2];
                }
                *u.last().unwrap() - o
            }
            Gate::Mul { aux, qm, qc, .. } => {
                let mut o = qm.f::<Fr>() * u[0] * u[1] + qc.f::<Fr>();
                if let Some((_, c)) = aux {
                    o += c.f::<Fr>() * u[2];
                }
                *u.last().unwrap() - o
            }
            Gate::AddTo { l, r, qc, .. } => u[2] - (l.1.f::<Fr>() * u[0] + r.1.f::<Fr>() * u[1] + qc.f::<Fr>()),
            Gate::Const { v } => -(u[0] - i.const_val(*v)),
            Gate::Pub { qc, .. } => -(u[0] - qc.f::<Fr>()),
            Gate::Equal { .. } => return None,
        };
        if i.holds(&w2) {
            return None; // the other value has no effect on this gate
        }
        let p = match catch(|| P::prove(pk, &i.compose_split(&w2, Some((k, pos, d))), rng).map(|p| enc(&p)).map_err(|e| format!("{:?}", e))) {
            Ok(p) => p,
            Err(e) => Err(e),
        };
        Some(("split-wires".into(), w2, p))
    }
    /// Claims another public input and makes up for the wrong evaluation in the two opening proofs,
    /// assuming the verifier combines them with randomness the prover can foresee.
    fn foreseen(pk: &zp::ProverKey<Fr, Pc>, i: &PInst, w: &PWit, seed: u64, rng: &mut SimRng) -> Option<(String, PWit, Result<Vec<u8>, String>)> {
        use ark_ff::{to_bytes, Field};
        use ark_poly::{EvaluationDomain, Evaluations, Polynomial};
        use ark_ec::{AffineCurve, ProjectiveCurve};
        use rand::SeedableRng;
        let mut w2 = w.clone();
        let k = (seed % w2.pi.len() as u64) as usize;
        w2.pi[k] += Fr::from(1 + seed % 5);
        if i.holds(&w2) {
            return None;
        }
        let (a, b) = (to_bytes![w.pi].unwrap(), to_bytes![w2.pi].unwrap());
        let mut run = |subst: &[(Vec<u8>, Vec<u8>)]| {
            let mut r = rng.clone();
            merlin::tap::start();
            merlin::tap::substitute(subst);
            let p = <Self as Scheme>::prove(pk, i, w, &mut r);
            merlin::tap::substituted();
            let seeds: Vec<[u8; 32]> = merlin::tap::take()
                .into_iter()
                .filter_map(|e| match e {
                    merlin::tap::Event::Challenge { value, .. } => value.try_into().ok(),
                    _ => None,
                })
                .collect();
            p.map(|p| (p, seeds))
        };
        let rand = |s: &[u8; 32]| Fr::rand(&mut rand_chacha::ChaChaRng::from_seed(*s));
        let (p1, s1) = run(&[(a.clone(), b.clone())]).ok()?;
        let p1: zp::Proof<Fr, Pc> = dec(&p1).ok()?;
        if s1.len() < 5 || p1.evaluations.len() != 11 {
            return None;
        }
        let zeta = rand(&s1[3]);
        let dom = pk.vk.info.domain_n;
        let at = |pi: &[Fr]| {
            let mut v = pi.to_vec();
            v.resize(dom.size(), Fr::zero());
            Evaluations::from_vec_and_domain(v, dom).interpolate().evaluate(&zeta)
        };
        let t = p1.evaluations[5];
        let t2 = t + p1.evaluations[0] * (at(&w2.pi) - at(&w.pi)) * dom.evaluate_vanishing_polynomial(zeta).inverse()?;
        let (p2, s2) = run(&[(a, b), (to_bytes![t].unwrap(), to_bytes![t2].unwrap())]).ok()?;
        let mut p2: zp::Proof<Fr, Pc> = dec(&p2).ok()?;
        if p2.pc_proof.proof.len() != 2 || s2.len() < 5 {
            return None;
        }
        p2.evaluations[5] = t2;
        let eps = rand(&s2[4]);
        let rho: Fr = u128::rand(&mut ark_std::test_rng()).into();
        let g = pk.vk.rk.vk.g;
        let d = eps.pow([5u64]) * (t2 - t) * (zeta - zeta * dom.element(1)).inverse()?;
        let add = |p: ark_bls12_381::G1Affine, x: Fr| (p.into_projective() + g.mul(x)).into_affine();
        p2.pc_proof.proof[0].w = add(p2.pc_proof.proof[0].w, -rho * d);
        p2.pc_proof.proof[1].w = add(p2.pc_proof.proof[1].w, d);
        Some(("foreseen-batching-randomness".into(), w2, Ok(enc(&p2))))
    }
}
