//! Libra (plain and zero-knowledge) and Hyrax over generated layered circuits.
use super::r1cs::CurveName;
use super::*;
use ark_ec::AffineCurve;
use ark_ff::Zero;
use ark_serialize::CanonicalSerialize;

use std::marker::PhantomData;
use zkp_curve::Curve;

/// A layered circuit and batch size.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Gkr {
    pub n_in: usize,
    pub n_aux: usize,
    pub layers: Vec<Vec<(u8, usize, usize)>>,
    pub batch: usize,
    /// exponent handed to the parameter generator
    pub num: usize,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct GSh {
    pub seed: u64,
    pub log_half: usize,
    pub short_in: bool,
    pub short_aux: bool,
    pub widths: Vec<usize>,
    pub batch: usize,
}
#[derive(Clone, Debug)]
pub struct GWit<F> {
    pub inputs: Vec<Vec<F>>,
    pub aux: Vec<Vec<F>>,
    /// outputs the prover will claim (None: the true ones)
    pub claim: Option<Vec<Vec<F>>>,
}
impl Gkr {
    pub fn half(&self) -> usize {
        self.n_in.max(self.n_aux).next_power_of_two()
    }
    pub fn gen(sh: &GSh) -> Gkr {
        let mut r = Rg::new(sh.seed);
        let half = 1usize << sh.log_half;
        let lo = half / 2 + 1;
        let short = |r: &mut Rg, s: bool| if s && half > 1 { r.range(lo.min(half), half) } else { half };
        let mut n_in = half;
        let mut n_aux = half;
        if sh.short_in {
            n_in = short(&mut r, true);
        }
        if sh.short_aux {
            n_aux = if n_in == half { r.range(1, half) } else { half };
        }
        let mut prev = 2 * half;
        let mut layers = vec![];
        for w in &sh.widths {
            let mut l = vec![];
            let style = r.below(4);
            for g in 0..*w {
                let op = match style {
                    0 => 0,
                    1 => 1,
                    _ => r.below(2) as u8,
                };
                let (a, b) = if r.pct(15) {
                    let x = r.below(prev);
                    (x, x)
                } else {
                    ((g * 2 + r.below(2)) % prev, r.below(prev))
                };
                l.push((op, a, b));
            }
            prev = *w;
            layers.push(l);
        }
        let witlog = sh.log_half + if sh.batch > 1 { (sh.batch as f64).log2().ceil() as usize } else { 0 };
        Gkr { n_in, n_aux, layers, batch: sh.batch, num: witlog.max(1) + r.below(3) }
    }
    pub fn shape(r: &mut Rg, big: bool, batch: usize) -> GSh {
        let depth = r.range(1, if big { 5 } else { 3 });
        let widths = (0..depth).map(|_| *r.pick(&[2usize, 2, 4, 4, 8, 1, 3, 6])).collect();
        GSh {
            seed: r.seed(),
            log_half: *r.pick(&[0, 1, 2, 2, 3, if big { 4 } else { 2 }]),
            short_in: r.pct(30),
            short_aux: r.pct(30),
            widths,
            batch,
        }
    }
    pub fn shrink(sh: &GSh) -> Vec<GSh> {
        let mut v = vec![];
        if sh.widths.len() > 1 {
            let mut s = sh.clone();
            s.widths.pop();
            v.push(s);
            let mut s = sh.clone();
            s.widths.remove(0);
            v.push(s);
        }
        for k in 0..sh.widths.len() {
            if sh.widths[k] > 2 {
                let mut s = sh.clone();
                s.widths[k] /= 2;
                v.push(s);
            }
        }
        if sh.log_half > 1 {
            let mut s = sh.clone();
            s.log_half -= 1;
            v.push(s);
        }
        if sh.batch > 1 {
            let mut s = sh.clone();
            s.batch /= 2;
            v.push(s);
        }
        if sh.short_in {
            let mut s = sh.clone();
            s.short_in = false;
            v.push(s);
        }
        if sh.short_aux {
            let mut s = sh.clone();
            s.short_aux = false;
            v.push(s);
        }
        v
    }
    /// Reference evaluation of one instance: witnesses occupy the first half, inputs the second.
    pub fn eval<F: PrimeField>(&self, inputs: &[F], aux: &[F]) -> Vec<F> {
        let h = self.half();
        let mut cur = vec![F::zero(); 2 * h];
        cur[..aux.len()].copy_from_slice(aux);
        cur[h..h + inputs.len()].copy_from_slice(inputs);
        for l in &self.layers {
            cur = l.iter().map(|(op, a, b)| if *op == 0 { cur[*a] + cur[*b] } else { cur[*a] * cur[*b] }).collect();
        }
        cur
    }
    pub fn layer0<F: PrimeField>(&self, inputs: &[F], aux: &[F]) -> Vec<F> {
        let h = self.half();
        let mut cur = vec![F::zero(); 2 * h];
        cur[..aux.len()].copy_from_slice(aux);
        cur[h..h + inputs.len()].copy_from_slice(inputs);
        cur
    }
    pub fn variant(&self, seed: u64) -> Gkr {
        let mut r = Rg::new(seed);
        let mut g = self.clone();
        let l = r.below(g.layers.len());
        let k = r.below(g.layers[l].len());
        let width = if l == 0 { 2 * self.half() } else { self.layers[l - 1].len() };
        match if width < 2 { 0 } else { r.below(3) } {
            0 => g.layers[l][k].0 ^= 1,
            1 => {
                let prev = if l == 0 { 2 * self.half() } else { self.layers[l - 1].len() };
                g.layers[l][k].1 = (g.layers[l][k].1 + 1 + r.below(prev - 1)) % prev
            }
            _ => {
                let prev = if l == 0 { 2 * self.half() } else { self.layers[l - 1].len() };
                g.layers[l][k].2 = (g.layers[l][k].2 + 1 + r.below(prev - 1)) % prev
            }
        }
        g
    }
    pub fn wit<F: PrimeField>(&self, seed: u64) -> GWit<F> {
        let mut r = Rg::new(seed);
        let style = r.below(3);
        let val = |r: &mut Rg| -> F {
            match (style, r.below(4)) {
                (0, 0) => F::zero(),
                (0, 1) => F::one(),
                (1, 0) => F::from(r.below(5) as u64),
                _ => F::rand(&mut SimRng::new(r.u64())),
            }
        };
        let b = self.batch.max(1);
        GWit {
            inputs: (0..b).map(|_| (0..self.n_in).map(|_| val(&mut r)).collect()).collect(),
            aux: (0..b).map(|_| (0..self.n_aux).map(|_| val(&mut r)).collect()).collect(),
            claim: None,
        }
    }
    pub fn outputs<F: PrimeField>(&self, w: &GWit<F>) -> Vec<Vec<F>> {
        w.inputs.iter().zip(&w.aux).map(|(i, a)| self.eval(i, a)).collect()
    }
    pub fn lie<F: PrimeField>(&self, w: &GWit<F>, seed: u64) -> GWit<F> {
        let mut r = Rg::new(seed);
        let mut o = self.outputs(w);
        let i = r.below(o.len());
        let k = r.below(o[i].len());
        o[i][k] = match r.below(3) {
            0 => o[i][k] + F::one(),
            1 => o[i][r.below(o[i].len())],
            _ => F::rand(&mut SimRng::new(r.u64())),
        };
        let mut w = w.clone();
        w.claim = Some(o);
        w
    }
    /// [outputs of each instance.., inputs of each instance..]
    pub fn stmt<F: PrimeField>(&self, w: &GWit<F>) -> Stmt<F> {
        let mut s = w.claim.clone().unwrap_or_else(|| self.outputs(w));
        s.extend(w.inputs.clone());
        s
    }
    pub fn with_stmt<F: PrimeField>(&self, w: &GWit<F>, s: &Stmt<F>) -> Option<GWit<F>> {
        let b = self.batch.max(1);
        let h = self.stmt(w);
        if s.len() != h.len() || s.iter().zip(&h).any(|(a, b)| a.len() != b.len()) {
            return None;
        }
        Some(GWit { inputs: s[b..].to_vec(), aux: w.aux.clone(), claim: Some(s[..b].to_vec()) })
    }
    pub fn holds<F: PrimeField>(&self, w: &GWit<F>) -> bool {
        match &w.claim {
            None => true,
            Some(c) => *c == self.outputs(w),
        }
    }
}

macro_rules! gkr_common {
    () => {
        type F = G::Fr;
        type Sh = GSh;
        type Inst = Gkr;
        type Wit = GWit<G::Fr>;
        fn shrink(sh: &GSh) -> Vec<GSh> {
            Gkr::shrink(sh)
        }
        fn inst(sh: &GSh) -> Gkr {
            Gkr::gen(sh)
        }
        fn variant(i: &Gkr, seed: u64) -> Gkr {
            i.variant(seed)
        }
        fn wit(i: &Gkr, seed: u64) -> GWit<G::Fr> {
            i.wit(seed)
        }
        fn lie(i: &Gkr, w: &GWit<G::Fr>, seed: u64) -> GWit<G::Fr> {
            i.lie(w, seed)
        }
        fn holds(i: &Gkr, w: &GWit<G::Fr>) -> bool {
            i.holds(w)
        }
        fn zero_hidden(_i: &Gkr, w: &GWit<G::Fr>) -> GWit<G::Fr> {
            let mut w = w.clone();
            w.aux.iter_mut().flatten().for_each(|x| *x = G::Fr::zero());
            w
        }
        fn ident(i: &Gkr, vk: &Self::Vk) -> Vec<u8> {
            let mut b = Self::vk_bytes(vk);
            b.extend(serde_json::to_vec(&(&i.layers, i.n_in, i.n_aux)).unwrap());
            b
        }
    };
}
/// Compare what the library claims with the reference evaluation.
fn claimed<F: PrimeField>(i: &Gkr, w: &GWit<F>, got: &[Vec<F>]) -> Result<(), String> {
    let want = i.outputs(w);
    if got != &want[..] {
        return Err("prover computed outputs different from gate-by-gate evaluation".into());
    }
    Ok(())
}

// ---- Libra, plain: the layer-0 vector is public ---------------------------
pub struct Libra<G>(PhantomData<G>);
pub struct LibraCtx<G: Curve> {
    pub c: zkp_libra::circuit::Circuit,
    pub h: G::Fr,
}
fn enc_plain<G: Curve>(p: &zkp_libra::libra_linear_gkr::LinearGKRProof<G>, w: &mut Rec) {
    (p.proofs.len() as u64).serialize(&mut *w).unwrap();
    for l in &p.proofs {
        l.proof_phase_one.serialize(&mut *w).unwrap();
        l.proof_phase_two.serialize(&mut *w).unwrap();
    }
}
pub fn dec_plain<G: Curve>(b: &[u8]) -> Result<zkp_libra::libra_linear_gkr::LinearGKRProof<G>, String> {
    let mut rd = b;
    let n = u64::deserialize(&mut rd).map_err(|e| format!("{:?}", e))?;
    let mut proofs = vec![];
    for _ in 0..n {
        let e = |e| format!("{:?}", e);
        proofs.push(zkp_libra::libra_linear_gkr::LayerProof {
            proof_phase_one: CanonicalDeserialize::deserialize(&mut rd).map_err(e)?,
            proof_phase_two: CanonicalDeserialize::deserialize(&mut rd).map_err(|e| format!("{:?}", e))?,
        });
    }
    Ok(zkp_libra::libra_linear_gkr::LinearGKRProof { proofs })
}
impl<G: CurveName> Scheme for Libra<G> {
    const NAME: &'static str = G::LIBRA;
    const CURVE: CurveId = G::ID;
    const ZK: bool = false;
    gkr_common!();
    type Pk = std::rc::Rc<LibraCtx<G>>;
    type Vk = std::rc::Rc<LibraCtx<G>>;
    fn shape(r: &mut Rg, big: bool) -> GSh {
        Gkr::shape(r, big, 1)
    }
    fn stmt(i: &Gkr, w: &GWit<G::Fr>) -> Stmt<G::Fr> {
        let mut s = i.stmt(w);
        // plain Libra has no hidden inputs: the verifier is given the whole input layer
        s[1] = i.layer0(&w.inputs[0], &w.aux[0]);
        s
    }
    fn with_stmt(i: &Gkr, w: &GWit<G::Fr>, s: &Stmt<G::Fr>) -> Option<GWit<G::Fr>> {
        let h = Self::stmt(i, w);
        if s.len() != 2 || s[0].len() != h[0].len() || s[1].len() != h[1].len() {
            return None;
        }
        let half = i.half();
        // full-size halves, so that every position of the public layer is represented
        Some(GWit { inputs: vec![s[1][half..].to_vec()], aux: vec![s[1][..half].to_vec()], claim: Some(vec![s[0].clone()]) })
    }
    fn setup(i: &Gkr, _srs: u64, _ws: u64, _rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let c = std::rc::Rc::new(Self::ctx(i));
        Ok(Ctx { pk: c.clone(), vk: c, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Gkr, w: &GWit<G::Fr>, _rng: &mut SimRng) -> Result<Vec<u8>, String> {
        let (p, out) =
            zkp_libra::libra_linear_gkr::LinearGKRProof::<G>::prover(&pk.c, &w.inputs[0], &w.aux[0], pk.h);
        claimed(i, w, &[out])?;
        let mut r = Rec::default();
        enc_plain(&p, &mut r);
        Ok(r.b)
    }
    fn prove_as(pk: &Self::Pk, _i: &Gkr, w: &GWit<G::Fr>, o: &Self::Pk, _rng: &mut SimRng) -> Option<Result<Vec<u8>, String>> {
        let (p, _) = zkp_libra::libra_linear_gkr::LinearGKRProof::<G>::prover(&pk.c, &w.inputs[0], &w.aux[0], o.h);
        let mut r = Rec::default();
        enc_plain(&p, &mut r);
        Some(Ok(r.b))
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof = match dec_plain::<G>(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        if s.len() != 2 {
            return Verdict::Reject;
        }
        verdict::<()>(Ok(proof.verify(&vk.c, &s[0], &s[1], vk.h)))
    }
    fn vk_bytes(_vk: &Self::Vk) -> Vec<u8> {
        vec![]
    }
    fn vk_load(i: &Gkr, _b: &[u8]) -> Result<Self::Vk, String> {
        Ok(std::rc::Rc::new(Self::ctx(i)))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        let p = dec_plain::<G>(b)?;
        let mut r = Rec::default();
        enc_plain(&p, &mut r);
        Ok((r.b, r.s))
    }
}
impl<G: Curve> Libra<G> {
    pub fn ctx(i: &Gkr) -> LibraCtx<G> {
        let c = zkp_libra::circuit::Circuit::new(i.n_in, i.n_aux, &i.layers);
        let h = c.circuit_to_hash::<G>();
        LibraCtx { c, h }
    }
}

// ---- Libra, zero knowledge ------------------------------------------------
pub struct LibraZk<G>(PhantomData<G>);
pub struct LibraZkCtx<G: Curve> {
    pub c: zkp_libra::circuit::Circuit,
    pub p: zkp_libra::params::Parameters<G>,
    pub h: [G::Fr; 2],
}
impl<G: Curve> LibraZk<G> {
    pub fn ctx(i: &Gkr, p: zkp_libra::params::Parameters<G>) -> LibraZkCtx<G> {
        let c = zkp_libra::circuit::Circuit::new(i.n_in, i.n_aux, &i.layers);
        let h = [c.circuit_to_hash::<G>(), p.param_to_hash()];
        LibraZkCtx { c, p, h }
    }
}
impl<G: CurveName> Scheme for LibraZk<G> {
    const NAME: &'static str = G::LIBRAZK;
    const CURVE: CurveId = G::ID;
    const ZK: bool = true;
    gkr_common!();
    type Pk = std::rc::Rc<LibraZkCtx<G>>;
    type Vk = std::rc::Rc<LibraZkCtx<G>>;
    fn shape(r: &mut Rg, big: bool) -> GSh {
        Gkr::shape(r, big, 1)
    }
    fn stmt(i: &Gkr, w: &GWit<G::Fr>) -> Stmt<G::Fr> {
        i.stmt(w)
    }
    fn with_stmt(i: &Gkr, w: &GWit<G::Fr>, s: &Stmt<G::Fr>) -> Option<GWit<G::Fr>> {
        i.with_stmt(w, s)
    }
    fn setup(i: &Gkr, _srs: u64, _ws: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let c = std::rc::Rc::new(Self::ctx(i, zkp_libra::params::Parameters::new(rng, i.num)));
        Ok(Ctx { pk: c.clone(), vk: c, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Gkr, w: &GWit<G::Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        let (p, out) = zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof::<G>::prover(
            &pk.p, &pk.c, &w.inputs[0], &w.aux[0], pk.h[0], pk.h[1], rng,
        );
        claimed(i, w, &[out])?;
        Ok(enc(&p))
    }
    fn prove_as(pk: &Self::Pk, _i: &Gkr, w: &GWit<G::Fr>, o: &Self::Pk, rng: &mut SimRng) -> Option<Result<Vec<u8>, String>> {
        let (p, _) = zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof::<G>::prover(
            &pk.p, &pk.c, &w.inputs[0], &w.aux[0], o.h[0], o.h[1], rng,
        );
        Some(Ok(enc(&p)))
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<G> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        if s.len() != 2 {
            return Verdict::Reject;
        }
        verdict::<()>(Ok(proof.verify(&vk.p, &vk.c, &s[0], &s[1], vk.h[0], vk.h[1])))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(&vk.p)
    }
    fn vk_load(i: &Gkr, b: &[u8]) -> Result<Self::Vk, String> {
        Ok(std::rc::Rc::new(Self::ctx(i, dec(b)?)))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<G>>(b)
    }
}

// ---- Hyrax ------------------------------------------------------------------
pub struct Hyrax<G>(PhantomData<G>);
pub struct HyraxCtx<G: Curve> {
    pub c: zkp_hyrax::circuit::Circuit,
    pub p: zkp_hyrax::params::Parameters<G>,
    pub h: [G::Fr; 2],
}
impl<G: Curve> Hyrax<G> {
    pub fn ctx(i: &Gkr, p: zkp_hyrax::params::Parameters<G>) -> HyraxCtx<G> {
        let c = zkp_hyrax::circuit::Circuit::new(i.n_in, i.n_aux, &i.layers);
        let h = [c.circuit_to_hash::<G>(), p.param_to_hash()];
        HyraxCtx { c, p, h }
    }
}
impl<G: CurveName> Scheme for Hyrax<G> {
    const NAME: &'static str = G::HYRAX;
    const CURVE: CurveId = G::ID;
    const ZK: bool = true;
    const FIXED_GROUPS: bool = false;
    gkr_common!();
    type Pk = std::rc::Rc<HyraxCtx<G>>;
    type Vk = std::rc::Rc<HyraxCtx<G>>;
    fn shape(r: &mut Rg, big: bool) -> GSh {
        let b = *r.pick(&[2usize, 2, 4, 1, if big { 8 } else { 2 }]);
        let mut s = Gkr::shape(r, big, b);
        if !big {
            s.widths.iter_mut().for_each(|w| *w = (*w).min(4));
            s.widths.truncate(2);
            s.log_half = s.log_half.min(2);
        }
        s
    }
    fn stmt(i: &Gkr, w: &GWit<G::Fr>) -> Stmt<G::Fr> {
        i.stmt(w)
    }
    fn with_stmt(i: &Gkr, w: &GWit<G::Fr>, s: &Stmt<G::Fr>) -> Option<GWit<G::Fr>> {
        i.with_stmt(w, s)
    }
    fn setup(i: &Gkr, _srs: u64, _ws: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String> {
        let c = std::rc::Rc::new(Self::ctx(i, zkp_hyrax::params::Parameters::new(rng, i.num)));
        Ok(Ctx { pk: c.clone(), vk: c, first: None })
    }
    fn prove(pk: &Self::Pk, i: &Gkr, w: &GWit<G::Fr>, rng: &mut SimRng) -> Result<Vec<u8>, String> {
        let (p, out) = zkp_hyrax::hyrax_proof::HyraxProof::<G>::prover(
            &pk.p, &w.aux, &w.inputs, &pk.c, pk.h[0], pk.h[1], w.inputs.len(), rng,
        );
        claimed(i, w, &out)?;
        Ok(enc(&p))
    }
    fn prove_as(pk: &Self::Pk, _i: &Gkr, w: &GWit<G::Fr>, o: &Self::Pk, rng: &mut SimRng) -> Option<Result<Vec<u8>, String>> {
        let (p, _) = zkp_hyrax::hyrax_proof::HyraxProof::<G>::prover(
            &pk.p, &w.aux, &w.inputs, &pk.c, o.h[0], o.h[1], w.inputs.len(), rng,
        );
        Some(Ok(enc(&p)))
    }
    fn verify(vk: &Self::Vk, s: &Stmt<G::Fr>, p: &[u8]) -> Verdict {
        let proof: zkp_hyrax::hyrax_proof::HyraxProof<G> = match dec(p) {
            Ok(p) => p,
            Err(e) => return Verdict::Decode(e),
        };
        let n = s.len() / 2;
        verdict::<()>(Ok(proof.verify(&vk.p, &s[..n].to_vec(), &s[n..].to_vec(), &vk.c, vk.h[0], vk.h[1])))
    }
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8> {
        enc(&vk.p)
    }
    fn vk_load(i: &Gkr, b: &[u8]) -> Result<Self::Vk, String> {
        Ok(std::rc::Rc::new(Self::ctx(i, dec(b)?)))
    }
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
        canon_of::<zkp_hyrax::hyrax_proof::HyraxProof<G>>(b)
    }
    /// `comm_evals`: per-round evaluation commitments that no equation of this variant of the
    /// protocol uses (the relation is checked on the round polynomials); they are only absorbed.
    /// the commitment to the claimed outputs is not blinded: the outputs are public
    fn public_part(b: &[u8]) -> Vec<usize> {
        let with = |pt: G::Affine| {
            let mut p: zkp_hyrax::hyrax_proof::HyraxProof<G> = dec(b).ok()?;
            p.proofs.first_mut()?.comm_a0 = pt;
            let mut r = Rec::default();
            p.serialize(&mut r).ok()?;
            Some((r.b, r.s))
        };
        match (with(G::Affine::zero()), with(G::Affine::prime_subgroup_generator())) {
            (Some(a), Some(z)) => differing(&a, &z),
            _ => vec![],
        }
    }
    fn redundant(b: &[u8]) -> Vec<usize> {
        let with = |pt: G::Affine| {
            let mut p: zkp_hyrax::hyrax_proof::HyraxProof<G> = dec(b).ok()?;
            p.proofs.iter_mut().for_each(|z| z.comm_evals.iter_mut().for_each(|e| *e = pt));
            let mut r = Rec::default();
            p.serialize(&mut r).ok()?;
            Some((r.b, r.s))
        };
        match (with(G::Affine::zero()), with(G::Affine::prime_subgroup_generator())) {
            (Some(a), Some(z)) => differing(&a, &z),
            _ => vec![],
        }
    }
}
