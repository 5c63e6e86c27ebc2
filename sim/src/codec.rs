//! C10: artefacts on a faulty disk.  A writer node stores an artefact through a stream that splits,
//! interrupts, refuses or kills its writes; the disk truncates or corrupts; a restarted node loads it.
use crate::circ::*;
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::gkr::*;
use crate::schemes::plonk::Plonk;
use crate::schemes::r1cs::*;
use crate::schemes::*;
use crate::util::*;
use ark_bls12_381::Bls12_381 as B;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError as SE};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::io::{Error, ErrorKind, Read, Write};
use zkp_curve25519::Curve25519 as C;

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Enc {
    Compressed,
    Uncompressed,
    Unchecked,
    /// the byte form transcripts and hashes use (`ToBytes`/`FromBytes`)
    Bytes,
}
const MODES: [Enc; 4] = [Enc::Compressed, Enc::Uncompressed, Enc::Unchecked, Enc::Bytes];

pub trait Obj {
    fn offers(&self, m: Enc) -> bool;
    fn loads(&self) -> bool {
        true
    }
    fn ser(&self, m: Enc, w: &mut dyn Write) -> Result<(), SE>;
    fn size(&self, m: Enc) -> Option<usize>;
    fn de(&self, m: Enc, r: &mut dyn Read) -> Result<Box<dyn Obj>, SE>;
    fn any(&self) -> &dyn Any;
}
struct H<T>(T);
impl<T: CanonicalSerialize + CanonicalDeserialize + 'static> Obj for H<T> {
    fn offers(&self, m: Enc) -> bool {
        m != Enc::Bytes
    }
    fn ser(&self, m: Enc, w: &mut dyn Write) -> Result<(), SE> {
        match m {
            Enc::Compressed => self.0.serialize(w),
            Enc::Uncompressed => self.0.serialize_uncompressed(w),
            _ => self.0.serialize_unchecked(w),
        }
    }
    fn size(&self, m: Enc) -> Option<usize> {
        Some(match m {
            Enc::Compressed => self.0.serialized_size(),
            _ => self.0.uncompressed_size(),
        })
    }
    fn de(&self, m: Enc, r: &mut dyn Read) -> Result<Box<dyn Obj>, SE> {
        Ok(Box::new(H(match m {
            Enc::Compressed => T::deserialize(r)?,
            Enc::Uncompressed => T::deserialize_uncompressed(r)?,
            _ => T::deserialize_unchecked(r)?,
        })))
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}
/// types with a byte form that can be read back
struct Raw<T>(T);
impl<T: ark_ff::ToBytes + ark_ff::FromBytes + 'static> Obj for Raw<T> {
    fn offers(&self, m: Enc) -> bool {
        m == Enc::Bytes
    }
    fn ser(&self, _m: Enc, w: &mut dyn Write) -> Result<(), SE> {
        Ok(self.0.write(w)?)
    }
    fn size(&self, _m: Enc) -> Option<usize> {
        None
    }
    fn de(&self, _m: Enc, r: &mut dyn Read) -> Result<Box<dyn Obj>, SE> {
        Ok(Box::new(Raw(T::read(r)?)))
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}
/// types that are only ever written
struct Out<T>(T);
impl<T: ark_ff::ToBytes + 'static> Obj for Out<T> {
    fn offers(&self, m: Enc) -> bool {
        m == Enc::Bytes
    }
    fn loads(&self) -> bool {
        false
    }
    fn ser(&self, _m: Enc, w: &mut dyn Write) -> Result<(), SE> {
        Ok(self.0.write(w)?)
    }
    fn size(&self, _m: Enc) -> Option<usize> {
        None
    }
    fn de(&self, _m: Enc, _r: &mut dyn Read) -> Result<Box<dyn Obj>, SE> {
        Err(SE::NotEnoughSpace)
    }
    fn any(&self) -> &dyn Any {
        &self.0
    }
}

// ---- the disk ---------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Flow {
    Whole,
    /// at most so many bytes per call
    Short(u64),
    /// random split points and interruptions
    Ragged(u64),
}
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Stop {
    No,
    /// the call at this position fails for good
    Fail(u8),
    /// the device accepts nothing more (write) / ends early (read)
    Full,
}
fn hard(k: u8) -> Error {
    match k % 4 {
        0 => Error::from_raw_os_error(28),
        1 => Error::from_raw_os_error(5),
        2 => Error::new(ErrorKind::BrokenPipe, "injected"),
        _ => Error::new(ErrorKind::Other, "injected"),
    }
}
struct Chan {
    flow: Flow,
    stop: Stop,
    at: usize,
    rg: Rg,
    intr: u32,
    calls: u64,
    shorts: u64,
}
impl Chan {
    fn new(flow: Flow, stop: Stop, at: usize) -> Chan {
        Chan { flow, stop, at, rg: Rg::new(if let Flow::Ragged(s) = flow { s } else { 0 }), intr: 0, calls: 0, shorts: 0 }
    }
    /// how many of `want` bytes pass at position `pos` (Err: the call fails)
    fn step(&mut self, pos: usize, want: usize) -> Result<usize, Error> {
        self.calls += 1;
        if want == 0 {
            return Ok(0);
        }
        let mut n = match self.flow {
            Flow::Whole => want,
            Flow::Short(k) => want.min(k as usize),
            Flow::Ragged(_) => {
                if self.intr < 3 && self.rg.pct(25) {
                    self.intr += 1;
                    return Err(Error::new(ErrorKind::Interrupted, "injected"));
                }
                self.intr = 0;
                if self.rg.pct(50) {
                    self.rg.range(1, want)
                } else {
                    want
                }
            }
        };
        if self.stop != Stop::No {
            if pos >= self.at {
                return match self.stop {
                    Stop::Fail(k) => Err(hard(k)),
                    _ => Ok(0),
                };
            }
            n = n.min(self.at - pos);
        }
        if n < want {
            self.shorts += 1
        }
        Ok(n)
    }
}
struct SimWriter {
    disk: Vec<u8>,
    ch: Chan,
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.ch.step(self.disk.len(), b.len())?;
        self.disk.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct SimReader<'a> {
    disk: &'a [u8],
    pos: usize,
    ch: Chan,
}
impl<'a> Read for SimReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let want = b.len().min(self.disk.len() - self.pos);
        let n = if want == 0 && self.ch.stop == Stop::No { 0 } else { self.ch.step(self.pos, want)? };
        b[..n].copy_from_slice(&self.disk[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Damage {
    None,
    Truncate,
    Flip(u8),
    Zero(u64),
    Ones(u64),
    Drop(u64),
    Dup(u64),
    Swap(u64),
    /// a later artefact of the same kind was half written over this one
    Torn,
    /// the bytes of another artefact under this name
    Other(u64),
}
impl Damage {
    fn name(&self) -> &'static str {
        match self {
            Damage::None => "none",
            Damage::Truncate => "truncated",
            Damage::Flip(_) => "bit flip",
            Damage::Zero(_) => "zeroed range",
            Damage::Ones(_) => "all-ones range",
            Damage::Drop(_) => "dropped range",
            Damage::Dup(_) => "duplicated range",
            Damage::Swap(_) => "swapped blocks",
            Damage::Torn => "torn overwrite",
            Damage::Other(_) => "other artefact",
        }
    }
}
/// where in the byte string a fault strikes
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Where {
    /// fraction of the length, in 1/65536
    Frac(u32),
    /// a boundary between two writes, and an offset from it
    Edge(u64, i8),
    /// from the end
    Tail(u32),
}
impl Where {
    fn gen(r: &mut Rg) -> Where {
        match r.below(4) {
            0 => Where::Frac(r.below(65536) as u32),
            1 => Where::Tail(r.range(1, 9) as u32),
            _ => Where::Edge(r.seed(), *r.pick(&[0i8, 0, 0, 1, -1, 4])),
        }
    }
    /// a position in 0..len
    fn at(&self, len: usize, edges: &[usize]) -> usize {
        if len == 0 {
            return 0;
        }
        let p = match self {
            Where::Frac(f) => (len as u64 * *f as u64 / 65536) as i64,
            Where::Edge(s, d) => {
                let e: i64 = if edges.is_empty() { 0 } else { edges[(*s % edges.len() as u64) as usize] as i64 };
                e + *d as i64
            }
            Where::Tail(k) => len as i64 - *k as i64,
        };
        p.clamp(0, len as i64 - 1) as usize
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct COp {
    art: u64,
    mode: Enc,
    wflow: Flow,
    wstop: Stop,
    rflow: Flow,
    rstop: Stop,
    at: Where,
    dmg: Damage,
    /// bytes of the next artefact follow in the same stream
    tail: bool,
}
fn gen_op(r: &mut Rg) -> COp {
    let flow = |r: &mut Rg| match r.below(4) {
        0 => Flow::Whole,
        1 => Flow::Short(r.range(1, 9) as u64),
        _ => Flow::Ragged(r.seed()),
    };
    let mut o = COp {
        art: r.seed(),
        mode: *r.pick(&MODES),
        wflow: flow(r),
        wstop: Stop::No,
        rflow: flow(r),
        rstop: Stop::No,
        at: Where::gen(r),
        dmg: Damage::None,
        tail: r.pct(50),
    };
    match r.below(10) {
        0..=2 => {}
        3 | 4 => o.wstop = if r.pct(60) { Stop::Fail(r.below(4) as u8) } else { Stop::Full },
        5 => o.rstop = if r.pct(60) { Stop::Fail(r.below(4) as u8) } else { Stop::Full },
        6 | 7 => o.dmg = Damage::Truncate,
        _ => {
            let s = r.seed();
            o.dmg = match r.below(9) {
                0..=2 => Damage::Flip(r.below(8) as u8),
                3 => Damage::Zero(s),
                4 => Damage::Ones(s),
                5 => Damage::Drop(s),
                6 => Damage::Dup(s),
                7 => Damage::Swap(s),
                _ => {
                    if r.pct(50) {
                        Damage::Torn
                    } else {
                        Damage::Other(s)
                    }
                }
            }
        }
    }
    o
}

// ---- the nodes that use the artefacts ----------------------------------------
pub type Arts = Vec<(&'static str, Box<dyn Obj>)>;
/// What a node does with an artefact it holds: a description of the outcome.
pub trait Codec: Scheme {
    fn arts(i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts;
    fn act(name: &str, o: &dyn Any, i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String;
}
fn again<T: CanonicalSerialize + CanonicalDeserialize + 'static>(t: &T) -> T {
    T::deserialize_unchecked(&{
        let mut v = vec![];
        t.serialize_unchecked(&mut v).expect("memory");
        v
    }[..])
    .expect("own encoding")
}
fn boxed<T: CanonicalSerialize + CanonicalDeserialize + 'static>(t: T) -> Box<dyn Obj> {
    Box::new(H(t))
}
fn dg<E: std::fmt::Debug>(r: Result<Vec<u8>, E>) -> String {
    match r {
        Ok(b) => format!("{:016x}", fnv(&b)),
        Err(e) => format!("error {:?}", e),
    }
}
/// the statement with one element changed
fn false_stmt<F: ark_ff::Field>(s: &Stmt<F>) -> Option<Stmt<F>> {
    let mut s = s.clone();
    let g = s.iter_mut().find(|g| !g.is_empty())?;
    g[0] += F::one();
    Some(s)
}
fn vk_act<S: Scheme>(i: &S::Inst, w: &S::Wit, f: &dyn Fn(&Stmt<S::F>) -> Verdict) -> String {
    let s = S::stmt(i, w);
    let t = f(&s);
    format!("{} {:?}", t.tag(), false_stmt(&s).map(|x| f(&x).tag()))
}
macro_rules! down {
    ($o:expr, $t:ty) => {
        $o.downcast_ref::<$t>().expect("artefact type")
    };
}
impl Codec for Groth16 {
    fn arts(_i: &Circ, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("parameters", boxed(cx.pk.clone())),
            ("verify key", boxed(cx.vk.clone())),
            ("proof", boxed(dec::<zkp_groth16::Proof<B>>(proof).expect("proof"))),
            ("indexes", boxed(vec![zkp_r1cs::Index::Input(0), zkp_r1cs::Index::Aux(300), zkp_r1cs::Index::Input(70000)])),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        let vk = |vk: &zkp_groth16::VerifyKey<B>| vk_act::<Self>(i, w, &|s| Self::verify(vk, s, proof));
        match name {
            "parameters" => {
                let p = down!(o, zkp_groth16::Parameters<B>);
                format!("{} {}", dg(Self::prove(p, i, w, &mut SimRng::new(seed))), vk(&p.vk))
            }
            "verify key" => vk(down!(o, zkp_groth16::VerifyKey<B>)),
            "proof" => {
                let p = down!(o, zkp_groth16::Proof<B>);
                vk_act::<Self>(i, w, &|s| {
                    verdict(zkp_groth16::verify_proof(&zkp_groth16::prepare_verifying_key(&cx.vk), p, &s[0]))
                })
            }
            _ => format!("{:?}", down!(o, Vec<zkp_r1cs::Index>)),
        }
    }
}
impl Codec for Marlin {
    fn arts(_i: &Circ, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("verify key", boxed(cx.vk.clone())),
            ("proof", boxed(dec::<zkp_marlin::Proof<B>>(proof).expect("proof"))),
            ("verify key bytes", Box::new(Out(cx.vk.clone()))),
            ("committer key bytes", Box::new(Out(cx.pk.ipk.committer_key.clone()))),
            ("verify key part", boxed(cx.vk.verifier_key.clone())),
            ("committer key", boxed(cx.pk.ipk.committer_key.clone())),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        match name {
            "verify key" => {
                let vk = down!(o, zkp_marlin::VerifyKey<B>);
                vk_act::<Self>(i, w, &|s| Self::verify(vk, s, proof))
            }
            "proof" => {
                let p = down!(o, zkp_marlin::Proof<B>);
                vk_act::<Self>(i, w, &|s| verdict(zkp_marlin::verify_proof(&cx.vk, p, &s[0])))
            }
            "committer key" => {
                let pk = MarlinPk {
                    srs: 0,
                    ipk: zkp_marlin::IndexProverKey { committer_key: again(like(&cx.pk.ipk.committer_key, o)), ..cx.pk.ipk.clone() },
                };
                dg(Self::prove(&pk, i, w, &mut SimRng::new(seed)))
            }
            "verify key part" => {
                let vk = zkp_marlin::VerifyKey { verifier_key: again(like(&cx.vk.verifier_key, o)), ..cx.vk.clone() };
                vk_act::<Self>(i, w, &|s| Self::verify(&vk, s, proof))
            }
            _ => String::new(),
        }
    }
}
fn like<'a, T: 'static>(_like: &T, o: &'a dyn Any) -> &'a T {
    o.downcast_ref::<T>().expect("artefact type")
}
impl Codec for Plonk {
    fn arts(_i: &Self::Inst, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("verify key", boxed(again(&cx.vk))),
            ("proof", boxed(dec::<crate::schemes::plonk::PProof>(proof).expect("proof"))),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], _seed: u64) -> String {
        match name {
            "verify key" => {
                let vk = down!(o, Self::Vk);
                vk_act::<Self>(i, w, &|s| Self::verify(vk, s, proof))
            }
            _ => {
                let p = enc(down!(o, crate::schemes::plonk::PProof));
                vk_act::<Self>(i, w, &|s| Self::verify(&cx.vk, s, &p))
            }
        }
    }
}
impl<G: CurveName> Codec for Bp<G> {
    fn arts(i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("generators", boxed(again(&cx.pk.gens))),
            ("circuit", boxed(again(&cx.pk.r1cs))),
            ("assignment", boxed(bp_assignment::<G>(i, w))),
            ("proof", boxed(dec::<zkp_bulletproofs::Proof<G>>(proof).expect("proof"))),
            ("points", boxed(vec![<G::Affine as ark_ec::AffineCurve>::prime_subgroup_generator(), <G::Affine as ark_ff::Zero>::zero()])),
            ("point bytes", Box::new(Raw(<G::Affine as ark_ec::AffineCurve>::prime_subgroup_generator()))),
            ("scalar bytes", Box::new(Raw(<G::Fr as From<u64>>::from(0x0102_0304_0506)))),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        use zkp_bulletproofs as z;
        let p0: z::Proof<G> = dec(proof).expect("proof");
        let run = |g: &z::Generators<G>, c: &z::R1csCircuit<G>, a: Option<&z::arithmetic_circuit::Assignment<G>>| {
            let v = vk_act::<Self>(i, w, &|s| verdict(z::verify_proof::<G>(g, &p0, c, &s[0])));
            let b = bp_assignment::<G>(i, w);
            let a = a.unwrap_or(&b);
            format!("{} {:016x}", v, fnv(&enc(&z::arithmetic_circuit::prove::<G, _>(g, c, a, &mut SimRng::new(seed)))))
        };
        match name {
            "generators" => run(down!(o, z::Generators<G>), &cx.pk.r1cs, None),
            "circuit" => run(&cx.pk.gens, down!(o, z::R1csCircuit<G>), None),
            "assignment" => run(&cx.pk.gens, &cx.pk.r1cs, Some(down!(o, z::arithmetic_circuit::Assignment<G>))),
            "proof" => vk_act::<Self>(i, w, &|s| {
                verdict(z::verify_proof::<G>(&cx.pk.gens, down!(o, z::Proof<G>), &cx.pk.r1cs, &s[0]))
            }),
            "points" => {
                let v = down!(o, Vec<G::Affine>);
                format!("{} {:?}", v.len(), v.iter().map(|p| meets::<G>(p)).collect::<Vec<_>>())
            }
            "point bytes" => format!("{:?}", meets::<G>(down!(o, G::Affine))),
            _ => format!("{:?}", down!(o, G::Fr)),
        }
    }
}
/// how a point relates to the generator and the identity (representations may differ)
fn meets<G: CurveName>(p: &G::Affine) -> (bool, bool, Vec<u8>) {
    use ark_ec::{AffineCurve, ProjectiveCurve};
    let g = <G::Affine as AffineCurve>::prime_subgroup_generator();
    let z = <G::Affine as ark_ff::Zero>::zero();
    let five: <G::Affine as AffineCurve>::Projective = p.mul(<G::Fr as From<u64>>::from(5));
    (*p == g, *p == z, enc(&five.into_affine()))
}
impl<G: CurveName> Codec for SpSnark<G> {
    fn arts(_i: &Circ, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        use zkp_spartan::snark as z;
        let k = again(&cx.pk.pk);
        vec![
            ("prove key", boxed(again(&cx.pk.pk))),
            ("verify key", boxed(again(&cx.vk.vk))),
            ("proof", boxed(dec::<z::Proof<G>>(proof).expect("proof"))),
            ("parameters", boxed(z::Parameters { params: k.params, r1cs: k.r1cs, encode: k.encode, encode_comm: k.encode_comm })),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        use zkp_spartan::snark as z;
        let p0: z::Proof<G> = dec(proof).expect("proof");
        let pk = |k: &z::ProveKey<G>| {
            let h = [k.r1cs.r1cs_to_hash(), k.params.param_to_hash(), k.encode_comm.encode_to_hash()];
            dg(z::create_random_proof(k, Synth::honest(i, w), h[0], h[1], h[2], &mut SimRng::new(seed)).map(|p| enc(&p)))
        };
        let vk = |k: &z::VerifyKey<G>, p: &z::Proof<G>| {
            let h = [k.r1cs.r1cs_to_hash(), k.params.param_to_hash(), k.encode_comm.encode_to_hash()];
            vk_act::<Self>(i, w, &|s| verdict(z::verify_proof(k, p, &s[0], h[0], h[1], h[2])))
        };
        match name {
            "prove key" => pk(down!(o, z::ProveKey<G>)),
            "verify key" => vk(down!(o, z::VerifyKey<G>), &p0),
            "proof" => vk(&cx.vk.vk, down!(o, z::Proof<G>)),
            _ => {
                let (a, b) = again(down!(o, z::Parameters<G>)).keypair();
                format!("{} {}", pk(&a), vk(&b, &p0))
            }
        }
    }
}
impl<G: CurveName> Codec for SpNizk<G> {
    fn arts(_i: &Circ, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        use zkp_spartan::nizk as z;
        let k = again(&cx.pk.pk);
        vec![
            ("prove key", boxed(again(&cx.pk.pk))),
            ("verify key", boxed(again(&cx.vk.vk))),
            ("proof", boxed(dec::<z::Proof<G>>(proof).expect("proof"))),
            ("parameters", boxed(z::Parameters { params: k.params, r1cs: k.r1cs })),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Circ, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        use zkp_spartan::nizk as z;
        let p0: z::Proof<G> = dec(proof).expect("proof");
        let pk = |k: &z::ProveKey<G>| {
            let h = [k.r1cs.r1cs_to_hash(), k.params.param_to_hash()];
            dg(z::create_random_proof(k, Synth::honest(i, w), h[0], h[1], &mut SimRng::new(seed)).map(|p| enc(&p)))
        };
        let vk = |k: &z::VerifyKey<G>, p: &z::Proof<G>| {
            let h = [k.r1cs.r1cs_to_hash(), k.params.param_to_hash()];
            vk_act::<Self>(i, w, &|s| verdict(z::verify_proof(k, p, &s[0], h[0], h[1])))
        };
        match name {
            "prove key" => pk(down!(o, z::ProveKey<G>)),
            "verify key" => vk(down!(o, z::VerifyKey<G>), &p0),
            "proof" => vk(&cx.vk.vk, down!(o, z::Proof<G>)),
            _ => {
                let (a, b) = again(down!(o, z::Parameters<G>)).keypair();
                format!("{} {}", pk(&a), vk(&b, &p0))
            }
        }
    }
}
impl<G: CurveName> Codec for Libra<G> {
    fn arts(_i: &Self::Inst, _w: &Self::Wit, _cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        let p = crate::schemes::gkr::dec_plain::<G>(proof).expect("proof");
        vec![("layer proofs", boxed(p.proofs.into_iter().map(|l| (l.proof_phase_one, l.proof_phase_two)).collect::<Vec<_>>()))]
    }
    fn act(_name: &str, o: &dyn Any, i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, _proof: &[u8], _seed: u64) -> String {
        let v = down!(o, Vec<(zkp_libra::sumcheck::SumCheckProof<G>, zkp_libra::sumcheck::SumCheckProof<G>)>);
        let p = zkp_libra::libra_linear_gkr::LinearGKRProof::<G> {
            proofs: again(v)
                .into_iter()
                .map(|(a, b)| zkp_libra::libra_linear_gkr::LayerProof { proof_phase_one: a, proof_phase_two: b })
                .collect(),
        };
        vk_act::<Self>(i, w, &|s| verdict::<()>(Ok(p.verify(&cx.vk.c, &s[0], &s[1], cx.vk.h))))
    }
}
impl<G: CurveName> Codec for LibraZk<G> {
    fn arts(_i: &Self::Inst, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("parameters", boxed(again(&cx.pk.p))),
            ("proof", boxed(dec::<zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<G>>(proof).expect("proof"))),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        match name {
            "parameters" => {
                let c = std::rc::Rc::new(Self::ctx(i, again(down!(o, zkp_libra::params::Parameters<G>))));
                format!(
                    "{} {}",
                    dg(Self::prove(&c, i, w, &mut SimRng::new(seed))),
                    vk_act::<Self>(i, w, &|s| Self::verify(&c, s, proof))
                )
            }
            _ => {
                let p = enc(down!(o, zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<G>));
                vk_act::<Self>(i, w, &|s| Self::verify(&cx.vk, s, &p))
            }
        }
    }
}
impl<G: CurveName> Codec for Hyrax<G> {
    fn arts(_i: &Self::Inst, _w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8]) -> Arts {
        vec![
            ("parameters", boxed(again(&cx.pk.p))),
            ("proof", boxed(dec::<zkp_hyrax::hyrax_proof::HyraxProof<G>>(proof).expect("proof"))),
        ]
    }
    fn act(name: &str, o: &dyn Any, i: &Self::Inst, w: &Self::Wit, cx: &Ctx<Self>, proof: &[u8], seed: u64) -> String {
        match name {
            "parameters" => {
                let c = std::rc::Rc::new(Self::ctx(i, again(down!(o, zkp_hyrax::params::Parameters<G>))));
                format!(
                    "{} {}",
                    dg(Self::prove(&c, i, w, &mut SimRng::new(seed))),
                    vk_act::<Self>(i, w, &|s| Self::verify(&c, s, proof))
                )
            }
            _ => {
                let p = enc(down!(o, zkp_hyrax::hyrax_proof::HyraxProof<G>));
                vk_act::<Self>(i, w, &|s| Self::verify(&cx.vk, s, &p))
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CPlan {
    sh: Value,
    seed: u64,
    ops: Vec<COp>,
}
fn clean(o: &dyn Obj, m: Enc) -> Result<(Vec<u8>, Vec<usize>), String> {
    let mut r = Rec::default();
    o.ser(m, &mut r).map_err(es)?;
    let mut edges = vec![];
    let mut k = 0;
    for l in &r.s {
        edges.push(k);
        k += l;
    }
    Ok((r.b, edges))
}
fn damage(d: &Damage, b: &[u8], at: usize, edges: &[usize], other: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if b.is_empty() {
        return v;
    }
    let len = |s: u64| (1 + (s % 40) as usize).min(b.len() - at);
    match d {
        Damage::None => {}
        Damage::Truncate => v.truncate(at),
        Damage::Flip(k) => v[at] ^= 1 << k,
        Damage::Zero(s) => v[at..at + len(*s)].iter_mut().for_each(|x| *x = 0),
        Damage::Ones(s) => v[at..at + len(*s)].iter_mut().for_each(|x| *x = 255),
        Damage::Drop(s) => {
            v.drain(at..at + len(*s));
        }
        Damage::Dup(s) => {
            let c: Vec<u8> = b[at..at + len(*s)].to_vec();
            v.splice(at..at, c);
        }
        Damage::Swap(s) => {
            // two writes of the encoder reach the disk in each other's place
            let ext = |k: usize| edges[k]..edges.get(k + 1).cloned().unwrap_or(b.len());
            if edges.len() > 1 {
                let i = (*s % edges.len() as u64) as usize;
                let j = (*s / 977 % edges.len() as u64) as usize;
                let (i, j) = (i.min(j), i.max(j));
                if i != j {
                    let mut o = b[..edges[i]].to_vec();
                    o.extend_from_slice(&b[ext(j)]);
                    o.extend_from_slice(&b[ext(i).end..edges[j]]);
                    o.extend_from_slice(&b[ext(i)]);
                    o.extend_from_slice(&b[ext(j).end..]);
                    v = o;
                }
            }
        }
        Damage::Torn => {
            let n = at.min(other.len());
            v[..n].copy_from_slice(&other[..n]);
        }
        Damage::Other(_) => v = other.to_vec(),
    }
    v
}
/// ark's decoder ignores the coordinate bytes beside the infinity flag, so an identity point has
/// several encodings; that is the dependency's business
fn only_in_identities(good: &[u8], edges: &[usize], disk: &[u8], unchecked: bool) -> bool {
    if good.len() != disk.len() {
        return false;
    }
    let chunk = |k: usize| edges.get(k).map(|b| &good[*b..edges.get(k + 1).cloned().unwrap_or(good.len())]);
    let end_of_identity = |k: usize| chunk(k).map_or(false, |c| c.len() == 48 && c[47] & 0x40 != 0 && c[1..47].iter().all(|x| *x == 0) && c[0] < 2);
    (0..good.len()).filter(|p| good[*p] != disk[*p]).all(|p| {
        let k = edges.iter().rposition(|e| *e <= p).unwrap_or(0);
        // its unchecked decoder takes any byte for a boolean
        (unchecked && chunk(k).map_or(false, |c| c.len() == 1)) || (0..4).any(|d| end_of_identity(k + d) && (0..d).all(|j| chunk(k + j).map_or(false, |c| c.len() == 48)))
    })
}
fn exec<S: Codec>(plan: &CPlan, st: &mut Stats) -> Result<(), Viol> {
    let sh: S::Sh = serde_json::from_value(plan.sh.clone()).expect("shape");
    let i = S::inst(&sh);
    let mut r = Rg::new(plan.seed);
    let ws = r.seed();
    let w = S::wit(&i, ws);
    let cx = match setup_caught::<S>(&i, 7, ws, &mut SimRng::new(r.seed())) {
        Ok(c) => c,
        Err(e) => return viol(format!("{}: setup", S::NAME), e),
    };
    let mk = |seed: u64| prove_caught::<S>(&cx.pk, &i, &w, &mut SimRng::new(seed)).map_err(|e| Viol { class: format!("{}: prove", S::NAME), msg: e });
    let proof = mk(r.seed())?;
    let proof2 = mk(r.seed())?;
    let arts = S::arts(&i, &w, &cx, &proof);
    let later = S::arts(&i, &w, &cx, &proof2);
    let pseed = r.seed();
    st.inc(&format!("sys.{}", S::NAME));
    for o in &plan.ops {
        let k = (o.art % arts.len() as u64) as usize;
        let (name, obj) = (arts[k].0, arts[k].1.as_ref());
        let mode = if obj.offers(o.mode) { o.mode } else { *MODES.iter().find(|m| obj.offers(**m)).unwrap() };
        let lab = |x: &str| format!("{} {}: {}", S::NAME, name, x);
        let (good, edges) = clean(obj, mode).map_err(|e| Viol { class: lab("encoding to memory fails"), msg: e })?;
        let ctx = |x: String| format!("{:?} {} bytes: {}", mode, good.len(), x);
        if let Some(n) = obj.size(mode) {
            st.inc("judged");
            if n != good.len() {
                return viol(lab("announced size"), ctx(format!("announces {}", n)));
            }
        }
        let at = o.at.at(good.len(), &edges);
        // -- the writer
        let mut wr = SimWriter { disk: vec![], ch: Chan::new(o.wflow, o.wstop, at) };
        let res = match catch(|| obj.ser(mode, &mut wr)) {
            Ok(r) => r,
            Err(p) => return viol(lab("writing panics"), ctx(format!("{:?} {:?} at {}: {}", o.wflow, o.wstop, at, p))),
        };
        st.inc("judged");
        st.inc("event.write");
        st.add("fault.short or split write", wr.ch.shorts);
        st.ev(format!("{} {} {:?} write {:?} {:?}@{} -> {} ({} durable)", S::NAME, name, mode, o.wflow, o.wstop, at, res.is_ok(), wr.disk.len()));
        if !good.starts_with(&wr.disk) {
            return viol(lab("split writes change the bytes"), ctx(format!("{:?} {:?} at {}", o.wflow, o.wstop, at)));
        }
        if o.wstop != Stop::No && !good.is_empty() {
            st.inc(&format!("fault.write {}", if o.wstop == Stop::Full { "accepts nothing" } else { "error" }));
            if res.is_ok() {
                return viol(lab("failed write reported as success"), ctx(format!("{:?} at {}: {} bytes durable", o.wstop, at, wr.disk.len())));
            }
        } else if let Err(e) = res {
            return viol(lab("split or interrupted write fails"), ctx(format!("{:?}: {:?}", o.wflow, e)));
        } else if wr.disk != good {
            return viol(lab("short write reported as success"), ctx(format!("{:?}: {} bytes durable", o.wflow, wr.disk.len())));
        }
        if !obj.loads() {
            continue;
        }
        // -- the disk, while everyone is down
        let other = match o.dmg {
            Damage::Other(s) => {
                let j = (s % later.len() as u64) as usize;
                let m = *MODES.iter().find(|m| later[j].1.offers(**m)).unwrap();
                clean(later[j].1.as_ref(), m).map(|x| x.0).unwrap_or_default()
            }
            _ => clean(later[k].1.as_ref(), mode).map(|x| x.0).unwrap_or_default(),
        };
        let crashed = o.wstop != Stop::No;
        let mut disk = if crashed { wr.disk } else { damage(&o.dmg, &good, at, &edges, &other) };
        if !crashed && o.dmg != Damage::None {
            st.inc(&format!("fault.disk {}", o.dmg.name()));
        }
        let own = disk.len();
        let cut = own < good.len() && good.starts_with(&disk);
        let intact = disk == good;
        if o.tail && !cut {
            disk.extend_from_slice(&good);
        }
        // -- the reader, after a restart
        let (rstop, rat) = if intact { (o.rstop, at) } else { (Stop::No, 0) };
        let mut rd = SimReader { disk: &disk, pos: 0, ch: Chan::new(o.rflow, rstop, rat) };
        let got = match catch(|| obj.de(mode, &mut rd)) {
            Ok(g) => g,
            Err(p) => return viol(lab("loading panics"), ctx(format!("{:?} at {}: {}", o.dmg, at, p))),
        };
        let used = rd.pos;
        st.inc("judged");
        st.inc("event.load");
        st.add("fault.short or split read", rd.ch.shorts);
        st.ev(format!("load {:?} {:?} {:?}@{} -> {} used {}", o.rflow, rstop, o.dmg, at, got.is_ok(), used));
        if rstop != Stop::No && !good.is_empty() {
            st.inc(&format!("fault.read {}", if rstop == Stop::Full { "ends early" } else { "error" }));
            st.inc("verdict.refused");
            if got.is_ok() {
                return viol(lab("failed read loads"), ctx(format!("{:?} at {}", rstop, rat)));
            }
            continue;
        }
        if cut {
            if got.is_ok() {
                return viol(lab("truncated bytes load"), ctx(format!("only {} bytes exist", own)));
            }
            st.inc("verdict.refused");
            continue;
        }
        let l = match got {
            Err(e) if intact => return viol(lab("stored artefact does not load"), ctx(format!("{:?}: {:?}", o.rflow, e))),
            Err(_) => {
                st.inc("verdict.refused");
                continue;
            }
            Ok(l) => l,
        };
        if intact {
            if used != good.len() {
                return viol(lab("loading consumes the wrong number of bytes"), ctx(format!("{} consumed", used)));
            }
            for m in MODES.iter().filter(|m| obj.offers(**m)) {
                let a = clean(obj, *m).map(|x| x.0);
                let b = clean(l.as_ref(), *m).map(|x| x.0);
                st.inc("judged");
                if a != b {
                    return viol(lab("loads as another object"), ctx(format!("its {:?} encoding differs", m)));
                }
            }
            let a = S::act(name, obj.any(), &i, &w, &cx, &proof, pseed);
            let b = match catch(|| S::act(name, l.any(), &i, &w, &cx, &proof, pseed)) {
                Ok(b) => b,
                Err(p) => format!("panic {}", p),
            };
            st.inc("judged");
            st.inc("verdict.same");
            st.inc("event.used after load");
            st.ev(format!("used: {}", b));
            if a != b {
                return viol(lab("behaves differently after loading"), ctx(format!("{} became {}", a, b)));
            }
        } else {
            st.inc("verdict.another object");
            let again = clean(l.as_ref(), mode).map(|x| x.0);
            let same_as_read = again.as_ref().map(|a| disk.starts_with(a)).unwrap_or(false);
            if again.as_ref() == Ok(&good) && !same_as_read && !(S::CURVE == CurveId::Bls && only_in_identities(&good, &edges, &disk[..own], mode == Enc::Unchecked && name != "indexes")) {
                return viol(lab("damaged bytes load as the original"), ctx(format!("{:?} at {} (chunks from {:?})", o.dmg, at, edges.iter().rev().take(6).map(|e| (*e, hex(&good[*e..good.len().min(*e + 48)]))).collect::<Vec<_>>())));
            }
        }
    }
    Ok(())
}

pub struct Store;
type Entry = (&'static str, u64, fn(&mut Rg) -> Value, fn(&CPlan, &mut Stats) -> Result<(), Viol>, fn(&Value) -> Vec<Value>);
fn entry<S: Codec>(w: u64) -> Entry {
    (
        S::NAME,
        w,
        |r| serde_json::to_value(S::shape(r, false)).unwrap(),
        exec::<S>,
        |v| {
            let sh: S::Sh = serde_json::from_value(v.clone()).expect("shape");
            S::shrink(&sh).iter().map(|s| serde_json::to_value(s).unwrap()).collect()
        },
    )
}
fn entries() -> Vec<Entry> {
    vec![
        entry::<Groth16>(3),
        entry::<Marlin>(2),
        entry::<Plonk>(3),
        entry::<Bp<B>>(2),
        entry::<Bp<C>>(4),
        entry::<SpSnark<B>>(1),
        entry::<SpSnark<C>>(4),
        entry::<SpNizk<B>>(2),
        entry::<SpNizk<C>>(4),
        entry::<Libra<B>>(1),
        entry::<Libra<C>>(2),
        entry::<LibraZk<B>>(1),
        entry::<LibraZk<C>>(3),
        entry::<Hyrax<B>>(1),
        entry::<Hyrax<C>>(3),
    ]
}
impl Check for Store {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            800
        } else {
            40000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let es = entries();
        let total: u64 = es.iter().map(|e| e.1).sum();
        let mut x = r.below(total as usize) as u64;
        let e = es
            .iter()
            .find(|e| {
                if x < e.1 {
                    true
                } else {
                    x -= e.1;
                    false
                }
            })
            .unwrap();
        let sh = (e.2)(&mut r);
        let n = r.range(6, if t == Tier::Quick { 14 } else { 30 });
        let p = CPlan { sh, seed: r.seed(), ops: (0..n).map(|_| gen_op(&mut r)).collect() };
        json!({"sys": e.0, "p": p})
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let name = plan["sys"].as_str().expect("sys");
        let e = entries().into_iter().find(|e| e.0 == name).expect("system");
        let p: CPlan = serde_json::from_value(plan["p"].clone()).expect("plan");
        (e.3)(&p, st)
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let name = plan["sys"].as_str().expect("sys");
        let e = entries().into_iter().find(|e| e.0 == name).expect("system");
        let p: CPlan = serde_json::from_value(plan["p"].clone()).expect("plan");
        let mut v = vec![];
        for k in 0..p.ops.len() {
            if p.ops.len() > 1 {
                let mut q = p.clone();
                q.ops = vec![p.ops[k].clone()];
                v.push(q);
            }
        }
        for s in (e.4)(&p.sh) {
            v.push(CPlan { sh: s, ..p.clone() });
        }
        for k in 0..p.ops.len().min(3) {
            for f in 0..3 {
                let mut q = p.clone();
                match f {
                    0 if q.ops[k].wflow != Flow::Whole => q.ops[k].wflow = Flow::Whole,
                    1 if q.ops[k].rflow != Flow::Whole => q.ops[k].rflow = Flow::Whole,
                    2 if q.ops[k].tail => q.ops[k].tail = false,
                    _ => continue,
                }
                v.push(q);
            }
        }
        v.into_iter().map(|q| json!({"sys": name, "p": q})).collect()
    }
    fn rule(&self) -> String {
        "one run = one deployment (scheme, circuit, keys, proofs) whose artefacts are stored and loaded several times over a disk with seeded split/interrupted/failing writes and reads, crashes, truncation and corruption; judged = every size, write, load, re-encoding and use of a loaded artefact; distinct = different execution traces".into()
    }
    fn components(&self) -> Value {
        json!({"real":"every serialize/deserialize of zkp-r1cs, zkp-groth16, zkp-marlin, zkp-plonk, zkp-bulletproofs, zkp-spartan, zkp-libra, zkp-hyrax, zkp-curve25519; provers and verifiers that use what was loaded",
               "stub":"the disk (byte vector behind Read/Write)"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["corruption that happens to be a valid encoding of another object is allowed to load as that other object (the formats carry no checksum)".into()]
    }
}
