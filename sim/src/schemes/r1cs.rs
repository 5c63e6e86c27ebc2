//! Groth16, Marlin, Bulletproofs and both Spartan modes over generated circuits.
use super::*;
use crate::circ::*;
use ark_bls12_381::{Bls12_381, Fr};
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;
use ark_ff::UniformRand;
use zkp_curve::Curve;

pub fn lie_circ<F: PrimeField>(c: &Circ, w: &Asg<F>, seed: u64) -> Asg<F> {
    let mut r = Rg::new(seed);
    let mut a = w.clone();
    if a.vals.is_empty() {
        return a;
    }
    let n = if r.pct(70) { 1 } else { r.range(1, 4) };
    for _ in 0..n {
        let k = r.below(a.vals.len());
        a.vals[k] = match r.below(5) {
            0 => a.vals[k] + F::one(),
            1 => F::zero(),
            2 => -a.vals[k],
            3 => a.vals[r.below(a.vals.len())],
            _ => F::rand(&mut SimRng::new(r.u64())),
        };
    }
    let _ = c;
    a
}
fn set_publics<F: PrimeField>(c: &Circ, w: &Asg<F>, s: &Stmt<F>) -> Option<Asg<F>> {
    if s.len() != 1 || s[0].len() != c.n_pub() {
        return None;
    }
    let mut a = w.clone();
    let mut k = 0;
    for st in &c.prog {
        if let St::Alloc(v) = st {
            if c.vars[*v].public {
                a.vals[*v] = s[0][k];
                k += 1;
            }
        }
    }
    Some(a)
}
pub fn shrink_shape(sh: &Shape) -> Vec<Shape> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Shape)| {
        let mut s = sh.clone();
        f(&mut s);
        if serde_json::to_string(&s).unwrap() != serde_json::to_string(sh).unwrap() {
            v.push(s)
        }
    };
    push(&|s| s.cons = 1);
    push(&|s| s.cons = (s.cons / 2).max(1));
    push(&|s| s.cons = s.cons.saturating_sub(1).max(1));
    push(&|s| s.max_pub = 0);
    push(&|s| s.max_pub = 1);
    push(&|s| s.max_pub /= 2);
    push(&|s| s.max_free = 0);
    push(&|s| s.max_free /= 2);
    push(&|s| s.exotic = 0);
    push(&|s| s.lc = 1);
    v
}

macro_rules! r1cs_common {
    ($f:ty) => {
        type F = $f;
        type Sh = Shape;
        type Inst = Circ;
        type Wit = Asg<$f>;
        fn shrink(sh: &Shape) -> Vec<Shape> {
            shrink_shape(sh)
        }
        fn inst(sh: &Shape) -> Circ {
            Circ::gen(sh)
        }
        fn variant(i: &Circ, seed: u64) -> Circ {
            i.variant(seed)
        }
        fn wit(i: &Circ, seed: u64) -> Asg<$f> {
            i.assign(seed)
        }
        fn lie(i: &Circ, w: &Asg<$f>, seed: u64) -> Asg<$f> {
            lie_circ(i, w, seed)
        }
        fn zero_hidden(i: &Circ, w: &Asg<$f>) -> Asg<$f> {
            let mut w = w.clone();
            for (k, v) in i.vars.iter().enumerate() {
                if !v.public {
                    w.vals[k] = <$f as ark_ff::Zero>::zero();
                }
            }
            w
        }
        fn holds(i: &Circ, w: &Asg<$f>) -> bool {
            i.violated(w).is_empty()
        }
        fn stmt(i: &Circ, w: &Asg<$f>) -> Stmt<$f> {
            vec![i.publics(w)]
        }
        fn with_stmt(i: &Circ, w: &Asg<$f>, s: &Stmt<$f>) -> Option<Asg<$f>> {
            set_publics(i, w, s)
        }
    };
}
pub fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

// ---- Groth16 --------------------------------------------------------------
pub struct Groth16;
impl Scheme for Groth16 {
    /// r masks A and C, s masks B and C
    fn mask_relations(pk: &Self::Pk, vk: &Self::Vk, a: &[u8], b: &[u8]) -> Vec<(&'static str, bool)> {
        use ark_bls12_381::Bls12_381 as B;
        use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
        let (x, y): (zkp_groth16::Proof<B>, zkp_groth16::Proof<B>) = match (dec(a), dec(b)) {
            (Ok(x), Ok(y)) => (x, y),
            _ => return vec![],
        };
        let da = (x.a.into_projective() - y.a.into_projective()).into_affine();
        let db = (x.b.into_projective() - y.b.into_projective()).into_affine();
        let l = B::pairing(da, vk.delta_g2);
        vec![
            ("r and s are one draw", l != B::pairing(pk.delta_g1, db)),
            ("r and s are opposite", l != B::pairing(-pk.delta_g1, db)),
        ]
    }
    const HASHES: bool = false;
    const NAME: &'static str = "groth16";
    const CURVE: CurveId = CurveId::Bls;
    const ZK: bool = true;
    r1cs_common!(Fr);
    type Pk = zkp_groth16::Parameters<Bls12_381>;
    type Vk = zkp_groth16::VerifyKey<Bls12_381>;
    fn shape(r: &mut Rg, big: bool) -> Shape {
        let mut s = Shape::gen(r);
        if big && r.pct(50) {
            s.cons = r.range(30, 70);
        }
        s
    }
    fn setup(i: &Circ, _srs: u64, _w: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let pk = zkp_groth16::generate_random_parameters::<Bls12_381, _, _>(Synth::<Fr>::blank(i), rng).map_err(es)?;
        Ok(Ctx { vk: pk.vk.clone(), pk, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Circ, w: &Asg<Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_groth16::create_random_proof(pk, Synth::honest(i, w), rng).map(|p| enc(&p)).map_err(es)
    }
    fn verify(vk: &Self::Vk, s: &Stmt<Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_groth16::Proof<Bls12_381> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        let pvk = zkp_groth16::prepare_verifying_key(vk);
        verdict(zkp_groth16::verify_proof(&pvk, &proof, &s[0]))
    }
    /// Claims other public inputs and moves the difference into C, or makes a proof of verification
    /// key elements alone (neither works unless the key's trapdoors are related).
    fn cheat(pk: &Self::Pk, i: &Circ, w: &Asg<Fr>, kind: u64, seed: u64, rng: &mut SimRng) -> Option<(String, Asg<Fr>, Result<Vec<u8>, String>)> {
        use ark_ec::{AffineCurve, ProjectiveCurve};
        let s: Vec<Fr> = i.publics(w);
        let mut s2 = s.clone();
        let mut r = Rg::new(seed);
        let gs = &pk.vk.gamma_abc_g1;
        if gs.len() != s.len() + 1 || s.is_empty() {
            return None;
        }
        let k = r.below(s.len());
        s2[k] = if r.pct(50) { s2[k] + Fr::from(1u64) } else { Fr::rand(&mut SimRng::new(r.u64())) };
        let w2 = set_publics(i, w, &vec![s2.clone()])?;
        if i.violated(&w2).is_empty() {
            return None;
        }
        let b: Vec<u8> = <Self as Scheme>::prove(pk, i, w, rng).ok()?;
        let mut p: zkp_groth16::Proof<Bls12_381> = dec(&b).ok()?;
        let mut acc = gs[0].into_projective();
        for (g, x) in gs[1..].iter().zip(&s2) {
            acc += &g.mul(*x);
        }
        let name = match kind % 3 {
            0 => {
                let d = gs[k + 1].mul(s[k] - s2[k]);
                p.c = (p.c.into_projective() + d).into_affine();
                "inputs-moved-into-c"
            }
            1 => {
                p.a = pk.vk.alpha_g1;
                p.b = pk.vk.beta_g2;
                p.c = (-acc).into_affine();
                "key-elements-as-proof"
            }
            _ => {
                p.a = acc.into_affine();
                p.b = pk.vk.gamma_g2;
                p.c = -pk.vk.alpha_g1;
                "gamma-pairing-as-proof"
            }
        };
        Some((name.into(), w2, Ok(enc(&p))))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(vk)
    }
    fn vk_load(_i: &Circ, b: &[u8]) -> Result<Self::Vk, String> {
        dec(b)
    }
    fn pk_bytes(pk: &Self::Pk) -> Option<Vec<u8>> {
        Some(enc(pk))
    }
    fn pk_load(_i: &Circ, b: &[u8]) -> Option<Result<Self::Pk, String>> {
        Some(dec(b))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_groth16::Proof<Bls12_381>>(b)
    }
}

// ---- Marlin ---------------------------------------------------------------
pub struct Marlin;
type Srs = zkp_marlin::UniversalParams<Bls12_381>;
pub struct MarlinPk {
    pub srs: u64,
    pub ipk: zkp_marlin::IndexProverKey<'static, Bls12_381>,
}
pub const MARLIN_DEG: usize = 1 << 11;
thread_local! {
    static SRS: RefCell<HashMap<(u64, usize), &'static Srs>> = Default::default();
}
/// One universal setup per (seed, degree), shared by every circuit indexed from it in this process.
pub fn marlin_srs(seed: u64, deg: usize) -> &'static Srs {
    SRS.with(|s| {
        *s.borrow_mut().entry((seed, deg)).or_insert_with(|| {
            let mut rng = SimRng::new(seed);
            Box::leak(Box::new(zkp_marlin::universal_setup::<Bls12_381, _>(deg, &mut rng).expect("universal setup")))
        })
    })
}
impl Scheme for Marlin {
    const NAME: &'static str = "marlin";
    const CURVE: CurveId = CurveId::Bls;
    const ZK: bool = true;
    r1cs_common!(Fr);
    type Pk = MarlinPk;
    type Vk = zkp_marlin::VerifyKey<Bls12_381>;
    fn shape(r: &mut Rg, big: bool) -> Shape {
        let mut s = Shape::gen(r);
        s.cons = s.cons.min(if big { 24 } else { 12 });
        s.lc = s.lc.min(4);
        s
    }
    fn setup(i: &Circ, srs: u64, _w: u64, _rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let (ipk, ivk) = zkp_marlin::index(marlin_srs(srs, MARLIN_DEG), Synth::<Fr>::blank(i)).map_err(|e| format!("{:?}", e))?;
        Ok(Ctx { pk: MarlinPk { srs, ipk }, vk: ivk, first: None })
    }
    /// Proves a variant circuit with parts of that circuit's key in place of the agreed circuit's:
    /// the matrices, the cached matrix evaluations, the polynomials, or everything but the digest.
    fn cheat(pk: &Self::Pk, i: &Circ, _w: &Asg<Fr>, kind: u64, seed: u64, rng: &mut SimRng) -> Option<(String, Asg<Fr>, Result<Vec<u8>, String>)> {
        let v = i.variant(seed);
        let w2 = v.assign::<Fr>(seed ^ 1);
        if i.violated(&w2).is_empty() || !v.violated(&w2).is_empty() {
            return None;
        }
        let (o, _) = zkp_marlin::index(marlin_srs(pk.srs, MARLIN_DEG), Synth::<Fr>::blank(&v)).ok()?;
        let mut ipk = pk.ipk.clone();
        ipk.index.a = o.index.a.clone();
        ipk.index.b = o.index.b.clone();
        ipk.index.c = o.index.c.clone();
        let name = match kind % 4 {
            0 => "matrices-of-another-circuit",
            1 => {
                ipk.index = o.index.clone();
                ipk.index_rands = o.index_rands.clone();
                "index-of-another-circuit"
            }
            k => {
                for (m, n) in [
                    (&mut ipk.index.a_star_polys, &o.index.a_star_polys),
                    (&mut ipk.index.b_star_polys, &o.index.b_star_polys),
                    (&mut ipk.index.c_star_polys, &o.index.c_star_polys),
                ] {
                    m.row_evals_on_k = n.row_evals_on_k.clone();
                    m.col_evals_on_k = n.col_evals_on_k.clone();
                    m.val_evals_on_k = n.val_evals_on_k.clone();
                    if k == 2 {
                        m.row_evals_on_b = n.row_evals_on_b.clone();
                        m.col_evals_on_b = n.col_evals_on_b.clone();
                        m.val_evals_on_b = n.val_evals_on_b.clone();
                        m.row_col_evals_on_b = n.row_col_evals_on_b.clone();
                    }
                }
                if k == 2 {
                    "matrix-evaluations-of-another-circuit"
                } else {
                    "half-the-matrix-evaluations-of-another-circuit"
                }
            }
        };
        let p = match catch(|| zkp_marlin::create_random_proof(&ipk, Synth::honest(&v, &w2), rng).map(|p| enc(&p)).map_err(es)) {
            Ok(p) => p,
            Err(e) => Err(e),
        };
        Some((name.into(), w2, p))
    }
    fn prove(pk: &Self::Pk, i: &Circ, w: &Asg<Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_marlin::create_random_proof(&pk.ipk, Synth::honest(i, w), rng).map(|p| enc(&p)).map_err(es)
    }
    fn verify(vk: &Self::Vk, s: &Stmt<Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_marlin::Proof<Bls12_381> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        verdict(zkp_marlin::verify_proof(vk, &proof, &s[0]))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(vk)
    }
    fn vk_load(_i: &Circ, b: &[u8]) -> Result<Self::Vk, String> {
        dec(b)
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_marlin::Proof<Bls12_381>>(b)
    }
}

// ---- Bulletproofs ---------------------------------------------------------
pub trait CurveName: Curve {
    const NAME: &'static str;
    const ID: CurveId;
    const BP: &'static str;
    const SNARK: &'static str;
    const NIZK: &'static str;
    const LIBRA: &'static str;
    const LIBRAZK: &'static str;
    const HYRAX: &'static str;
}
impl CurveName for Bls12_381 {
    const NAME: &'static str = "bls12_381";
    const ID: CurveId = CurveId::Bls;
    const BP: &'static str = "bulletproofs/bls12_381";
    const SNARK: &'static str = "spartan-snark/bls12_381";
    const NIZK: &'static str = "spartan-nizk/bls12_381";
    const LIBRA: &'static str = "libra/bls12_381";
    const LIBRAZK: &'static str = "libra-zk/bls12_381";
    const HYRAX: &'static str = "hyrax/bls12_381";
}
impl CurveName for zkp_curve25519::Curve25519 {
    const NAME: &'static str = "curve25519";
    const ID: CurveId = CurveId::C25519;
    const BP: &'static str = "bulletproofs/curve25519";
    const SNARK: &'static str = "spartan-snark/curve25519";
    const NIZK: &'static str = "spartan-nizk/curve25519";
    const LIBRA: &'static str = "libra/curve25519";
    const LIBRAZK: &'static str = "libra-zk/curve25519";
    const HYRAX: &'static str = "hyrax/curve25519";
}

pub struct Bp<G>(PhantomData<G>);
pub struct BpCtx<G: Curve> {
    pub gens: zkp_bulletproofs::Generators<G>,
    pub r1cs: zkp_bulletproofs::R1csCircuit<G>,
}
/// The witness layout Bulletproofs' prover takes: A·z, B·z, C·z, (1, publics), aux.
pub fn bp_assignment<G: Curve>(i: &Circ, w: &Asg<G::Fr>) -> zkp_bulletproofs::arithmetic_circuit::Assignment<G> {
    let mut s = vec![<G::Fr as ark_ff::One>::one()];
    s.extend(i.publics(w));
    let aux: Vec<G::Fr> = i
        .prog
        .iter()
        .filter_map(|st| match st {
            St::Alloc(v) if !i.vars[*v].public => Some(w.vals[*v]),
            _ => None,
        })
        .collect();
    let cons: Vec<&Con> = i
        .prog
        .iter()
        .filter_map(|st| match st {
            St::Enforce(k) => Some(&i.cons[*k]),
            _ => None,
        })
        .collect();
    let al: Vec<G::Fr> = cons.iter().map(|c| eval_lc(&c.a, &w.vals)).collect();
    let ar: Vec<G::Fr> = cons.iter().map(|c| eval_lc(&c.b, &w.vals)).collect();
    let ao: Vec<G::Fr> = cons.iter().map(|c| eval_lc(&c.c, &w.vals)).collect();
    let mut b = vec![];
    for v in [&al, &ar, &ao, &s, &aux] {
        v.serialize(&mut b).unwrap();
    }
    dec(&b).expect("assignment encoding")
}
impl<G: CurveName> Scheme for Bp<G> {
    const NAME: &'static str = G::BP;
    const CURVE: CurveId = G::ID;
    const BLINDS: bool = true;
    const ZK: bool = false; // l_x, r_x are sent in the clear by design of this implementation
    r1cs_common!(G::Fr);
    type Pk = Rc<BpCtx<G>>;
    type Vk = Rc<BpCtx<G>>;
    fn shape(r: &mut Rg, big: bool) -> Shape {
        let mut s = Shape::gen(r);
        s.cons = s.cons.min(if big { 20 } else { 9 });
        s
    }
    fn setup(i: &Circ, _srs: u64, ws: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let w = i.assign::<G::Fr>(ws);
        let (gens, r1cs, proof) =
            zkp_bulletproofs::create_random_proof::<G, _, _>(Synth::honest(i, &w), rng).map_err(es)?;
        let c = Rc::new(BpCtx { gens, r1cs });
        Ok(Ctx { pk: c.clone(), vk: c, first: Some(enc(&proof)) })
    }
    fn prove(pk: &Self::Pk, i: &Circ, w: &Asg<G::Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        let a = bp_assignment::<G>(i, w);
        Ok(enc(&zkp_bulletproofs::arithmetic_circuit::prove::<G, _>(&pk.gens, &pk.r1cs, &a, rng)))
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_bulletproofs::Proof<G> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        verdict(zkp_bulletproofs::verify_proof::<G>(&vk.gens, &proof, &vk.r1cs, &s[0]))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        let mut b = enc(&vk.gens);
        b.extend(enc(&vk.r1cs));
        b
    }
    fn vk_load(_i: &Circ, b: &[u8]) -> Result<Self::Vk, String> {
        let mut rd = b;
        let gens = CanonicalDeserialize::deserialize(&mut rd).map_err(es)?;
        let r1cs = CanonicalDeserialize::deserialize(&mut rd).map_err(es)?;
        Ok(Rc::new(BpCtx { gens, r1cs }))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_bulletproofs::Proof<G>>(b)
    }
}

// ---- Spartan --------------------------------------------------------------
pub struct SpSnark<G>(PhantomData<G>);
pub struct SpPk<G: Curve> {
    pub pk: zkp_spartan::snark::ProveKey<G>,
    pub h: [G::Fr; 3],
}
pub struct SpVk<G: Curve> {
    pub vk: zkp_spartan::snark::VerifyKey<G>,
    pub h: [G::Fr; 3],
}
impl<G: CurveName> Scheme for SpSnark<G> {
    const NAME: &'static str = G::SNARK;
    const CURVE: CurveId = G::ID;
    const ZK: bool = true;
    r1cs_common!(G::Fr);
    type Pk = SpPk<G>;
    type Vk = SpVk<G>;
    fn shape(r: &mut Rg, big: bool) -> Shape {
        let mut s = Shape::gen(r);
        s.cons = s.cons.min(if big { 16 } else { 6 });
        s.lc = s.lc.min(4);
        s
    }
    fn setup(i: &Circ, _srs: u64, _ws: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let p = zkp_spartan::snark::generate_random_parameters::<G, _, _>(Synth::blank(i), rng).map_err(es)?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(Ctx { pk: SpPk { pk, h }, vk: SpVk { vk, h }, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Circ, w: &Asg<G::Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_spartan::snark::create_random_proof(&pk.pk, Synth::honest(i, w), pk.h[0], pk.h[1], pk.h[2], rng)
            .map(|p| enc(&p))
            .map_err(es)
    }
    fn prove_as(pk: &Self::Pk, i: &Circ, w: &Asg<G::Fr>, o: &Self::Pk, rng: &mut SimRng) -> Option<Result<Vec<u8>, String>> {
        Some(
            zkp_spartan::snark::create_random_proof(&pk.pk, Synth::honest(i, w), o.h[0], o.h[1], o.h[2], rng)
                .map(|p| enc(&p))
                .map_err(es),
        )
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_spartan::snark::Proof<G> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        verdict(zkp_spartan::snark::verify_proof(&vk.vk, &proof, &s[0], vk.h[0], vk.h[1], vk.h[2]))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(&vk.vk)
    }
    fn vk_load(_i: &Circ, b: &[u8]) -> Result<Self::Vk, String> {
        let vk: zkp_spartan::snark::VerifyKey<G> = dec(b)?;
        let h = [vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash()];
        Ok(SpVk { vk, h })
    }
    fn pk_bytes(pk: &Self::Pk) -> Option<Vec<u8>> {
        Some(enc(&pk.pk))
    }
    fn pk_load(_i: &Circ, b: &[u8]) -> Option<Result<Self::Pk, String>> {
        Some(dec::<zkp_spartan::snark::ProveKey<G>>(b).map(|pk| {
            let h = [pk.r1cs.r1cs_to_hash(), pk.params.param_to_hash(), pk.encode_comm.encode_to_hash()];
            SpPk { pk, h }
        }))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_spartan::snark::Proof<G>>(b)
    }
}

pub struct SpNizk<G>(PhantomData<G>);
pub struct SnPk<G: Curve> {
    pub pk: zkp_spartan::nizk::ProveKey<G>,
    pub h: [G::Fr; 2],
}
pub struct SnVk<G: Curve> {
    pub vk: zkp_spartan::nizk::VerifyKey<G>,
    pub h: [G::Fr; 2],
}
impl<G: CurveName> Scheme for SpNizk<G> {
    const NAME: &'static str = G::NIZK;
    const CURVE: CurveId = G::ID;
    const ZK: bool = true;
    r1cs_common!(G::Fr);
    type Pk = SnPk<G>;
    type Vk = SnVk<G>;
    fn shape(r: &mut Rg, big: bool) -> Shape {
        let mut s = Shape::gen(r);
        s.cons = s.cons.min(if big { 24 } else { 10 });
        s
    }
    fn setup(i: &Circ, _srs: u64, _ws: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let p = zkp_spartan::nizk::generate_random_parameters::<G, _, _>(Synth::blank(i), rng).map_err(es)?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(Ctx { pk: SnPk { pk, h }, vk: SnVk { vk, h }, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Circ, w: &Asg<G::Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        zkp_spartan::nizk::create_random_proof(&pk.pk, Synth::honest(i, w), pk.h[0], pk.h[1], rng)
            .map(|p| enc(&p))
            .map_err(es)
    }
    fn prove_as(pk: &Self::Pk, i: &Circ, w: &Asg<G::Fr>, o: &Self::Pk, rng: &mut SimRng) -> Option<Result<Vec<u8>, String>> {
        Some(
            zkp_spartan::nizk::create_random_proof(&pk.pk, Synth::honest(i, w), o.h[0], o.h[1], rng)
                .map(|p| enc(&p))
                .map_err(es),
        )
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_spartan::nizk::Proof<G> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        verdict(zkp_spartan::nizk::verify_proof(&vk.vk, &proof, &s[0], vk.h[0], vk.h[1]))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(&vk.vk)
    }
    fn vk_load(_i: &Circ, b: &[u8]) -> Result<Self::Vk, String> {
        let vk: zkp_spartan::nizk::VerifyKey<G> = dec(b)?;
        let h = [vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash()];
        Ok(SnVk { vk, h })
    }
    fn pk_bytes(pk: &Self::Pk) -> Option<Vec<u8>> {
        Some(enc(&pk.pk))
    }
    fn pk_load(_i: &Circ, b: &[u8]) -> Option<Result<Self::Pk, String>> {
        Some(dec::<zkp_spartan::nizk::ProveKey<G>>(b).map(|pk| {
            let h = [pk.r1cs.r1cs_to_hash(), pk.params.param_to_hash()];
            SnPk { pk, h }
        }))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_spartan::nizk::Proof<G>>(b)
    }
}
