//! Adapters: every proof system behind one interface of setup / prove / verify / store / load.
use crate::util::*;
use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Write};
use serde::de::DeserializeOwned;

pub mod gkr;
pub mod plonk;
pub mod r1cs;

/// Public statement: groups of field elements (R1CS: [publics]; GKR: [outputs.., inputs..]).
pub type Stmt<F> = Vec<Vec<F>>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CurveId {
    Bls,
    C25519,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    Err(String),
    Decode(String),
    Panic(String),
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accept
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Accept => "accept",
            Verdict::Reject => "reject",
            Verdict::Err(_) => "error",
            Verdict::Decode(_) => "undecodable",
            Verdict::Panic(_) => "panic",
        }
    }
}

pub struct Ctx<S: Scheme> {
    pub pk: S::Pk,
    pub vk: S::Vk,
    /// a proof the setup itself produced (Bulletproofs), for the assignment of the given seed
    pub first: Option<Vec<u8>>,
}

pub trait Scheme: Sized + 'static {
    const NAME: &'static str;
    const CURVE: CurveId;
    /// provably hides the witness (claims zero knowledge)
    const ZK: bool;
    /// the prover masks what depends on the witness
    const BLINDS: bool = Self::ZK;
    /// relations that would show two masks of differing kinds to be one draw: (name, holds as it should)
    fn mask_relations(_pk: &Self::Pk, _vk: &Self::Vk, _a: &[u8], _b: &[u8]) -> Vec<(&'static str, bool)> {
        vec![]
    }
    /// the verifier derives challenges by hashing
    const HASHES: bool = true;
    /// the verifier's interface fixes the number of groups in a statement
    const FIXED_GROUPS: bool = true;
    type F: PrimeField;
    type Sh: Clone + serde::Serialize + DeserializeOwned;
    type Inst: Clone;
    type Wit: Clone;
    type Pk;
    type Vk;

    fn shape(r: &mut Rg, big: bool) -> Self::Sh;
    fn shrink(sh: &Self::Sh) -> Vec<Self::Sh>;
    fn inst(sh: &Self::Sh) -> Self::Inst;
    /// same size, other constraints
    fn variant(i: &Self::Inst, seed: u64) -> Self::Inst;
    fn wit(i: &Self::Inst, seed: u64) -> Self::Wit;
    /// assignment changed arbitrarily in `n` places
    fn lie(i: &Self::Inst, w: &Self::Wit, seed: u64) -> Self::Wit;
    /// reference evaluation
    fn holds(i: &Self::Inst, w: &Self::Wit) -> bool;
    fn stmt(i: &Self::Inst, w: &Self::Wit) -> Stmt<Self::F>;
    /// `w` with the public part replaced (None when the lengths differ)
    fn with_stmt(i: &Self::Inst, w: &Self::Wit, s: &Stmt<Self::F>) -> Option<Self::Wit>;
    fn setup(i: &Self::Inst, srs: u64, wseed: u64, rng: &mut SimRng) -> Result<Ctx<Self>, String>;
    fn prove(pk: &Self::Pk, i: &Self::Inst, w: &Self::Wit, rng: &mut SimRng) -> Result<Vec<u8>, String>;
    /// prove with `pk`/`i` while naming another context (schemes that pass context digests)
    fn prove_as(
        _pk: &Self::Pk,
        _i: &Self::Inst,
        _w: &Self::Wit,
        _as: &Self::Pk,
        _rng: &mut SimRng,
    ) -> Option<Result<Vec<u8>, String>> {
        None
    }
    /// A scheme-specific dishonest prover: (name, the assignment it claims, its proof).
    #[allow(clippy::type_complexity)]
    fn cheat(
        _pk: &Self::Pk,
        _i: &Self::Inst,
        _w: &Self::Wit,
        _kind: u64,
        _seed: u64,
        _rng: &mut SimRng,
    ) -> Option<(String, Self::Wit, Result<Vec<u8>, String>)> {
        None
    }
    /// `w` with every hidden value zero
    fn zero_hidden(i: &Self::Inst, w: &Self::Wit) -> Self::Wit;
    /// identity of a verification context: equal means the two accept the same proofs
    fn ident(_i: &Self::Inst, vk: &Self::Vk) -> Vec<u8> {
        Self::vk_bytes(vk)
    }
    fn verify(vk: &Self::Vk, s: &Stmt<Self::F>, proof: &[u8]) -> Verdict;
    fn vk_bytes(vk: &Self::Vk) -> Vec<u8>;
    fn vk_load(i: &Self::Inst, b: &[u8]) -> Result<Self::Vk, String>;
    fn pk_bytes(_pk: &Self::Pk) -> Option<Vec<u8>> {
        None
    }
    fn pk_load(_i: &Self::Inst, _b: &[u8]) -> Option<Result<Self::Pk, String>> {
        None
    }
    /// decode, re-encode with a slot recorder
    fn canon(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String>;
    /// slots a prover may choose freely as long as it absorbs them (redundant messages; DESIGN.md)
    fn redundant(_b: &[u8]) -> Vec<usize> {
        vec![]
    }
    /// slots that the statement determines (redundant copies of public values; DESIGN.md)
    fn public_part(_b: &[u8]) -> Vec<usize> {
        vec![]
    }
    /// a component that may stay out of challenge number `j` although sent before it (DESIGN.md)
    fn loose(_j: usize, _label: &str, _kind: crate::mutate::Kind, _slot: usize, _slots: &[crate::mutate::Slot]) -> bool {
        false
    }
    /// indices of slots that the verifier legitimately ignores (must be justified in DESIGN.md)
    fn ignored(_slots: &[usize]) -> Vec<usize> {
        vec![]
    }
}

/// Write sink that remembers the boundaries of each write.
#[derive(Default)]
pub struct Rec {
    pub b: Vec<u8>,
    pub s: Vec<usize>,
}
impl Write for Rec {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if !d.is_empty() {
            self.b.extend_from_slice(d);
            self.s.push(d.len());
        }
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn canon_of<T: CanonicalSerialize + CanonicalDeserialize>(b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
    let t = T::deserialize(b).map_err(|e| format!("{:?}", e))?;
    let mut r = Rec::default();
    t.serialize(&mut r).map_err(|e| format!("{:?}", e))?;
    Ok((r.b, r.s))
}
pub fn enc<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).expect("encoding to memory");
    v
}
pub fn dec<T: CanonicalDeserialize>(b: &[u8]) -> Result<T, String> {
    T::deserialize(b).map_err(|e| format!("{:?}", e))
}
pub fn verdict<E: std::fmt::Debug>(r: Result<bool, E>) -> Verdict {
    match r {
        Ok(true) => Verdict::Accept,
        Ok(false) => Verdict::Reject,
        Err(e) => Verdict::Err(format!("{:?}", e)),
    }
}
/// verify with panics captured
pub fn verify_caught<S: Scheme>(vk: &S::Vk, s: &Stmt<S::F>, p: &[u8]) -> Verdict {
    match catch(|| S::verify(vk, s, p)) {
        Ok(v) => v,
        Err(m) => Verdict::Panic(m),
    }
}
pub fn prove_caught<S: Scheme>(pk: &S::Pk, i: &S::Inst, w: &S::Wit, rng: &mut SimRng) -> Result<Vec<u8>, String> {
    match catch(|| S::prove(pk, i, w, rng)) {
        Ok(v) => v,
        Err(m) => Err(format!("panic {}", m)),
    }
}
pub fn setup_caught<S: Scheme>(i: &S::Inst, srs: u64, ws: u64, rng: &mut SimRng) -> Result<Ctx<S>, String> {
    match catch(|| S::setup(i, srs, ws, rng)) {
        Ok(v) => v,
        Err(m) => Err(format!("panic {}", m)),
    }
}

/// Slots in which two encodings of the same layout differ.
pub fn differing(a: &(Vec<u8>, Vec<usize>), b: &(Vec<u8>, Vec<usize>)) -> Vec<usize> {
    let mut v = vec![];
    if a.1 != b.1 {
        return v;
    }
    let mut off = 0;
    for (i, l) in a.1.iter().enumerate() {
        if a.0[off..off + l] != b.0[off..off + l] {
            v.push(i);
        }
        off += l;
    }
    v
}
