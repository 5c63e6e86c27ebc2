//! C16, C17, C18 (circuit part): gadgets against Byzantine provers.
use crate::adv::*;
use crate::runner::*;
use crate::util::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, Zero};
use blake2s_simd::Params as Blake2sParams;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use zkp_gadgets::algebra::boolean::{field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean};
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{blake2s, mimc, poseidon, rescue, sha256};
use zkp_gadgets::lookup::table;
use zkp_gadgets::merkletree::{cbmt, cbmt_constraints::MerkleProofGadget};
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_gadgets::operator::rangeproof::RangeProof;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

type F = Fr;
type R = Rec<F>;

/// a boolean as the statement sees it
#[derive(Clone, Copy, Debug)]
pub enum B {
    C(bool),
    Is(u32),
    Not(u32),
}
fn bref(cs: &R, b: &Boolean) -> B {
    match b {
        Boolean::Constant(c) => B::C(*c),
        Boolean::Is(a) => B::Is(cs.wire(a.get_variable())),
        Boolean::Not(a) => B::Not(cs.wire(a.get_variable())),
    }
}
fn bval(b: B, v: &[F]) -> Result<bool, String> {
    let f = |w: u32| {
        let x = v[w as usize];
        if x.is_zero() {
            Ok(false)
        } else if x.is_one() {
            Ok(true)
        } else {
            Err(format!("wire {} of a boolean holds neither 0 nor 1", w))
        }
    };
    match b {
        B::C(c) => Ok(c),
        B::Is(w) => f(w),
        B::Not(w) => f(w).map(|x| !x),
    }
}
fn word(bits: &[B], v: &[F]) -> Result<u32, String> {
    let mut w = 0u32;
    for (i, b) in bits.iter().enumerate() {
        if bval(*b, v)? {
            w |= 1 << i;
        }
    }
    Ok(w)
}
fn bytes_be(bits: &[B], v: &[F]) -> Result<Vec<u8>, String> {
    bits.chunks(8).map(|c| c.iter().try_fold(0u8, |a, b| bval(*b, v).map(|x| a << 1 | x as u8))).collect()
}
fn bytes_le(bits: &[B], v: &[F]) -> Result<Vec<u8>, String> {
    bits.chunks(8)
        .map(|c| c.iter().enumerate().try_fold(0u8, |a, (i, b)| bval(*b, v).map(|x| a | (x as u8) << i)))
        .collect()
}

type Post = Box<dyn Fn(&[F]) -> Result<(), String>>;

/// One gadget instance over one recorded synthesis.
pub struct Case {
    pub cs: R,
    /// wires the statement fixes
    pub pins: Vec<u32>,
    /// the constraints should accept the honest wires
    pub ok: bool,
    pub post: Post,
    /// wires never left to the prover, whatever the attack
    pub public: Vec<u32>,
    /// value the gadget reported, against the reference
    pub report: Result<(), String>,
    pub label: String,
}

struct Bx {
    cs: R,
    ins: Vec<u32>,
    bools: Vec<B>,
}
impl Bx {
    fn new(blind: bool) -> Self {
        Bx { cs: Rec::new(blind), ins: vec![], bools: vec![] }
    }
    fn val<T>(&self, x: T) -> Option<T> {
        if self.cs.blind {
            None
        } else {
            Some(x)
        }
    }
    fn abit(&mut self, v: bool, input: bool) -> AllocatedBit {
        let x = self.val(v);
        self.cs.mute = true;
        let b = if input { AllocatedBit::alloc_input::<F, _>(self.cs.ns(|| "b"), x) } else { AllocatedBit::alloc::<F, _>(self.cs.ns(|| "b"), x) }.unwrap();
        self.cs.mute = false;
        let w = self.cs.wire(b.get_variable());
        self.ins.push(w);
        self.bools.push(B::Is(w));
        b
    }
    fn bit(&mut self, v: bool, kind: u64) -> Boolean {
        match kind % 10 {
            0..=4 => Boolean::from(self.abit(v, false)),
            5..=6 => Boolean::from(self.abit(!v, false)).not(),
            7 => Boolean::from(self.abit(v, true)),
            _ => Boolean::constant(v),
        }
    }
    fn fr(&mut self, v: F) -> AllocatedFr<F> {
        let x = self.val(v);
        self.cs.mute = true;
        let a = AllocatedFr::alloc(self.cs.ns(|| "f"), || x.ok_or(SynthesisError::AssignmentMissing)).unwrap();
        self.cs.mute = false;
        let w = self.cs.wire(a.get_variable());
        self.ins.push(w);
        a
    }
    fn done(self, label: &str, ok: bool, report: Result<(), String>, post: Post) -> Case {
        Case { cs: self.cs, pins: self.ins, ok, post, public: vec![], report, label: label.into() }
    }
}

fn rfr(r: &mut Rg) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2u64),
        _ => F::from(r.u64()) * F::from(r.u64()) + F::from(r.u64()),
    }
}
fn eqv(what: &str, a: bool, b: bool) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {} instead of {}", what, a, b))
    }
}

// ---- arithmetic gadgets (C16) --------------------------------------------
pub const ARITH: &[&str] = &["bool", "equal", "cond", "bits", "u32", "fr", "range", "multieq", "lookup"];

pub fn build(kind: &str, seed: u64, blind: bool) -> Result<Case, SynthesisError> {
    let mut r = Rg::new(seed);
    let mut x = Bx::new(blind);
    Ok(match kind {
        "bool" => {
            let n = r.range(2, 4);
            let mut pool: Vec<(Boolean, B, bool)> = vec![];
            for _ in 0..n {
                let (v, k) = (r.pct(50), r.u64());
                let b = x.bit(v, k);
                pool.push((b, bref(&x.cs, &b), v));
            }
            let mut ops: Vec<(usize, Vec<B>, B, &'static str)> = vec![];
            let mut report = Ok(());
            for _ in 0..r.range(1, 6) {
                let (i, j, k) = (r.below(pool.len()), r.below(pool.len()), r.below(pool.len()));
                let (a, b, c) = (pool[i].clone(), pool[j].clone(), pool[k].clone());
                let op = r.below(7);
                let alloc2 = |p: &Boolean| match p {
                    Boolean::Is(a) => Some(*a),
                    _ => None,
                };
                let (o, name): (Boolean, &str) = match op {
                    0 => (Boolean::xor::<F, _>(x.cs.ns(|| "op"), &a.0, &b.0)?, "xor"),
                    1 => (Boolean::and::<F, _>(x.cs.ns(|| "op"), &a.0, &b.0)?, "and"),
                    2 => (Boolean::sha256_ch::<F, _>(x.cs.ns(|| "op"), &a.0, &b.0, &c.0)?, "ch"),
                    3 => (Boolean::sha256_maj::<F, _>(x.cs.ns(|| "op"), &a.0, &b.0, &c.0)?, "maj"),
                    4 => (a.0.not(), "not"),
                    _ => match (alloc2(&a.0), alloc2(&b.0)) {
                        (Some(p), Some(q)) => match r.below(4) {
                            0 => (AllocatedBit::and_not::<F, _>(x.cs.ns(|| "op"), &p, &q)?.into(), "and_not"),
                            1 => (AllocatedBit::nor::<F, _>(x.cs.ns(|| "op"), &p, &q)?.into(), "nor"),
                            2 => (AllocatedBit::and::<F, _>(x.cs.ns(|| "op"), &p, &q)?.into(), "and"),
                            _ => (AllocatedBit::xor::<F, _>(x.cs.ns(|| "op"), &p, &q)?.into(), "xor"),
                        },
                        _ => (a.0.not(), "not"),
                    },
                };
                let e = boolop(name, a.2, b.2, c.2);
                if !blind && o.get_value() != Some(e) {
                    report = Err(format!("{} of {} {} {} reports {:?}", name, a.2, b.2, c.2, o.get_value()));
                }
                let ob = bref(&x.cs, &o);
                ops.push((op, vec![a.1, b.1, c.1], ob, name));
                pool.push((o, ob, e));
            }
            let ins = x.bools.clone();
            x.done(
                "bool",
                true,
                report,
                Box::new(move |v| {
                    for b in &ins {
                        bval(*b, v)?;
                    }
                    for (_, i, o, name) in &ops {
                        let e = boolop(name, bval(i[0], v)?, bval(i[1], v)?, bval(i[2], v)?);
                        eqv(name, bval(*o, v)?, e)?;
                    }
                    Ok(())
                }),
            )
        }
        "equal" => {
            let (va, vb) = (r.pct(50), r.pct(50));
            let (ka, kb) = (r.u64(), r.u64());
            let (a, b) = (x.bit(va, ka), x.bit(vb, kb));
            let (ra, rb) = (bref(&x.cs, &a), bref(&x.cs, &b));
            let res = Boolean::enforce_equal::<F, _>(x.cs.ns(|| "eq"), &a, &b);
            let both = a.is_constant() && b.is_constant();
            let report = match (&res, both && va != vb) {
                (Ok(()), false) => Ok(()),
                (Err(SynthesisError::Unsatisfiable), true) => Ok(()),
                (x, _) => Err(format!("enforce_equal({},{}) constants={} returned {:?}", va, vb, both, x.is_ok())),
            };
            let refused = res.is_err();
            x.done("enforce_equal", va == vb || refused, report, Box::new(move |v| if refused { Ok(()) } else { eqv("enforce_equal", bval(ra, v)?, bval(rb, v)?) }))
        }
        "cond" => {
            let m = r.pct(50);
            let va = r.pct(50);
            let mb = x.abit(m, false);
            let v = x.val(va);
            let o = AllocatedBit::alloc_conditionally::<F, _>(x.cs.ns(|| "c"), v, &mb)?;
            let (wm, wo) = (B::Is(x.cs.wire(mb.get_variable())), B::Is(x.cs.wire(o.get_variable())));
            x.done(
                "alloc_conditionally",
                !(m && va),
                Ok(()),
                Box::new(move |v| {
                    if bval(wm, v)? && bval(wo, v)? {
                        return Err("bit is true although its condition forces false".into());
                    }
                    Ok(())
                }),
            )
        }
        "bits" => {
            let (bits, want): (Vec<Boolean>, Vec<bool>) = if r.pct(50) {
                let n = r.u64();
                let v = x.val(n);
                (u64_into_boolean_vec_le::<F, _>(x.cs.ns(|| "u"), v)?, (0..64).map(|i| n >> i & 1 == 1).collect())
            } else {
                let f = rfr(&mut r);
                let rep = f.into_repr();
                let v = x.val(f);
                (field_into_boolean_vec_le::<F, _>(x.cs.ns(|| "f"), v)?, (0..255).map(|i| ark_ff::BigInteger::get_bit(&rep, i)).collect())
            };
            let mut report = Ok(());
            if !blind && bits.iter().map(|b| b.get_value()).collect::<Vec<_>>() != want.iter().map(|b| Some(*b)).collect::<Vec<_>>() {
                report = Err("bits of a number are not its binary expansion".into());
            }
            let rs: Vec<B> = bits.iter().map(|b| bref(&x.cs, b)).collect();
            if report.is_ok() && !blind {
                let v: Vec<F> = x.cs.val.iter().map(|y| y.unwrap()).collect();
                for (b, w) in rs.iter().zip(&want) {
                    if bval(*b, &v) != Ok(*w) {
                        report = Err("allocated bits are not the binary expansion".into());
                    }
                }
            }
            x.done("into_bits", true, report, Box::new(move |v| rs.iter().try_for_each(|b| bval(*b, v).map(|_| ()))))
        }
        "u32" => return u32_case(r, x),
        "fr" => {
            let f = rfr(&mut r);
            let a = x.fr(f);
            let mode = r.below(3);
            let (mut ok, mut post): (bool, Post) = (true, Box::new(|_| Ok(())));
            let wa = x.cs.wire(a.get_variable());
            let mut report = Ok(());
            if !blind && a.get_value() != Some(f) {
                report = Err("an allocated field element reports another value".into());
            }
            match mode {
                0 => {
                    a.inputize(x.cs.ns(|| "in"))?;
                    let wi = *x.cs.inputs().last().unwrap();
                    post = Box::new(move |v| if v[wi as usize] == v[wa as usize] { Ok(()) } else { Err("public copy of a field wire differs from it".into()) });
                }
                1 => {
                    match a.isnonzero(x.cs.ns(|| "nz")) {
                        Ok(()) => {}
                        Err(SynthesisError::DivisionByZero) if f.is_zero() => ok = false,
                        Err(e) => return Err(e),
                    }
                    if !ok {
                        // nothing left to attack: the prover was refused
                        x.cs = Rec::new(blind);
                        x.ins.clear();
                        ok = true;
                    } else {
                        if f.is_zero() && !blind {
                            report = Err("isnonzero succeeded on zero".into());
                        }
                        post = Box::new(move |v| if v[wa as usize].is_zero() { Err("isnonzero accepts zero".into()) } else { Ok(()) });
                    }
                }
                _ => {
                    let y = x.val(f);
                    let i = AllocatedFr::alloc_input(x.cs.ns(|| "i"), || y.ok_or(SynthesisError::AssignmentMissing))?;
                    if x.cs.inputs().last() != Some(&x.cs.wire(i.get_variable())) {
                        report = Err("alloc_input did not allocate a public input".into());
                    }
                }
            }
            x.done("fr", ok, report, post)
        }
        "range" => {
            let n = match r.below(4) {
                0 => r.range(1, 4),
                1 => r.range(5, 16),
                2 => r.range(17, 64),
                _ => r.range(65, 200),
            } as u64;
            let two_n = F::from(2u64).pow(&[n]);
            let lim: F = two_n;
            let small = |r: &mut Rg| F::from(r.u64() & if n < 60 { (1u64 << n) - 1 } else { u64::MAX });
            let a = if r.pct(80) { small(&mut r) } else { rfr(&mut r) };
            let b = match r.below(8) {
                0 => a,
                1 => a + F::one(),
                2 => a - F::one(),
                3 => a + lim - F::one(),
                4 => a + lim,
                5 => rfr(&mut r),
                _ => small(&mut r),
            };
            let inr = move |a: F, b: F| {
                let d = (b - a).into_repr();
                d < lim.into_repr() && !(b - a).is_zero()
            };
            RangeProof::<F> { lhs: x.val(a), rhs: x.val(b), n }.generate_constraints(&mut x.cs)?;
            // the statement: the first two private wires are compared, the public input is 2^n
            let (wa, wb, wn) = (1u32, 2u32, 3u32);
            x.ins = vec![wa, wb];
            let mut report = Ok(());
            if !blind && (x.cs.val[1] != Some(a) || x.cs.val[2] != Some(b)) {
                report = Err("range proof does not allocate its operands first".into());
            }
            let pubs = x.cs.inputs();
            if pubs.len() != 2 || pubs[1] != wn {
                report = Err("range proof's public input is not 2^n alone".into());
            }
            let mut c = x.done(
                "range",
                inr(a, b),
                report,
                Box::new(move |v| {
                    if inr(v[wa as usize], v[wb as usize]) {
                        Ok(())
                    } else {
                        Err(format!("range proof accepts lhs {} rhs {} for n={}", v[wa as usize], v[wb as usize], n))
                    }
                }),
            );
            c.public = vec![wn];
            if !blind && c.cs.val[3] != Some(two_n) {
                c.report = Err("2^n public input has another value".into());
            }
            c
        }
        "multieq" => {
            let npairs = r.range(1, 9);
            let mut eqs: Vec<(Vec<(B, usize)>, Vec<(B, usize)>)> = vec![];
            let mut lcs = vec![];
            let mut ok = true;
            for _ in 0..npairs {
                let nb = *r.pick(&[1usize, 2, 7, 31, 32, 33, 60, 64, 127, 128]);
                let mut half = |x: &mut Bx, vals: &[bool]| {
                    let mut lc = LinearCombination::<F>::zero();
                    let mut rs = vec![];
                    for (i, v) in vals.iter().enumerate() {
                        let k = if i % 5 == 0 { 5 } else { 0 };
                        let b = x.bit(*v, k);
                        lc = lc + &b.lc(R::one(), F::from(2u64).pow(&[i as u64]));
                        rs.push((bref(&x.cs, &b), i));
                    }
                    (lc, rs)
                };
                let va: Vec<bool> = (0..nb).map(|_| r.pct(50)).collect();
                let mut vb = va.clone();
                if r.pct(12) {
                    let i = r.below(nb);
                    vb[i] = !vb[i];
                    ok = false;
                }
                let (la, ra) = half(&mut x, &va);
                let (lb, rb) = half(&mut x, &vb);
                eqs.push((ra, rb));
                lcs.push((nb, la, lb));
            }
            {
                let mut m = MultiEq::new(&mut x.cs);
                for (nb, a, b) in &lcs {
                    m.enforce_equal(*nb, a, b);
                }
            }
            // the prover owns the right-hand sides
            let rhs: std::collections::BTreeSet<u32> =
                eqs.iter().flat_map(|e| e.1.iter()).filter_map(|b| match b.0 { B::Is(w) | B::Not(w) => Some(w), _ => None }).collect();
            x.ins.retain(|w| !rhs.contains(w));
            x.done(
                "multieq",
                ok,
                Ok(()),
                Box::new(move |v| {
                    for (a, b) in &eqs {
                        let s = |h: &Vec<(B, usize)>| h.iter().map(|(b, i)| bval(*b, v).map(|x| (x, *i))).collect::<Result<Vec<_>, _>>();
                        if s(a)? != s(b)? {
                            return Err("packed equality holds although the sides differ".into());
                        }
                    }
                    Ok(())
                }),
            )
        }
        "lookup" => {
            let nb = r.range(1, 3);
            let two = nb > 1 && r.pct(50);
            let n = 1usize << nb;
            let cst: Vec<(F, F)> = (0..n).map(|_| (rfr(&mut r), rfr(&mut r))).collect();
            let mut bits = vec![];
            let mut vals = vec![];
            for _ in 0..nb {
                let (v, k) = (r.pct(50), r.u64());
                vals.push(v);
                bits.push(x.bit(v, k));
            }
            let xs: Vec<F> = cst.iter().map(|c| c.0).collect();
            let cs = x.cs.ns(|| "l");
            let (o, o2) = match (nb, two) {
                (1, _) => (table::lookup1_x(cs, &bits[0], &xs)?, None),
                (2, false) => (table::lookup2_x(cs, &bits, &xs)?, None),
                (2, true) => {
                    let (a, b) = table::lookup2_xy(cs, &bits, &cst)?;
                    (a, Some(b))
                }
                (3, false) => (table::lookup3_x(cs, &bits, &xs)?, None),
                _ => {
                    let (a, b) = table::lookup3_xy(cs, &bits, &cst)?;
                    (a, Some(b))
                }
            };
            let idx = vals.iter().enumerate().fold(0, |a, (i, v)| a | (*v as usize) << i);
            let mut report = Ok(());
            if !blind && (o.get_value() != Some(cst[idx].0) || o2.as_ref().map(|y| y.get_value() != Some(cst[idx].1)).unwrap_or(false)) {
                report = Err(format!("lookup{} reports another table entry", nb));
            }
            let rs: Vec<B> = bits.iter().map(|b| bref(&x.cs, b)).collect();
            let wo = x.cs.wire(o.get_variable());
            let wo2 = o2.map(|y| x.cs.wire(y.get_variable()));
            x.done(
                &format!("lookup{}", nb),
                true,
                report,
                Box::new(move |v| {
                    let mut i = 0;
                    for (k, b) in rs.iter().enumerate() {
                        i |= (bval(*b, v)? as usize) << k;
                    }
                    if v[wo as usize] != cst[i].0 || wo2.map(|w| v[w as usize] != cst[i].1).unwrap_or(false) {
                        return Err(format!("lookup{} output is not table entry {}", rs.len(), i));
                    }
                    Ok(())
                }),
            )
        }
        _ => unreachable!("{}", kind),
    })
}
fn boolop(n: &str, a: bool, b: bool, c: bool) -> bool {
    match n {
        "xor" => a ^ b,
        "and" => a & b,
        "and_not" => a & !b,
        "nor" => !a & !b,
        "ch" => (a & b) ^ (!a & c),
        "maj" => (a & b) ^ (a & c) ^ (b & c),
        "not" => !a,
        _ => unreachable!(),
    }
}

fn u32_case(mut r: Rg, mut x: Bx) -> Result<Case, SynthesisError> {
    let blind = x.cs.blind;
    enum Op {
        Rotr(usize, usize),
        Shr(usize, usize),
        Xor(usize, usize),
        Add(Vec<usize>),
        Ch(usize, usize, usize),
        Maj(usize, usize, usize),
        Rebuild(usize),
        RebuildBe(usize),
    }
    let apply = |o: &Op, w: &[u32]| match o {
        Op::Rotr(a, k) => w[*a].rotate_right(*k as u32),
        Op::Shr(a, k) => w[*a] >> k,
        Op::Xor(a, b) => w[*a] ^ w[*b],
        Op::Add(v) => v.iter().fold(0u32, |s, i| s.wrapping_add(w[*i])),
        Op::Ch(a, b, c) => (w[*a] & w[*b]) ^ (!w[*a] & w[*c]),
        Op::Maj(a, b, c) => (w[*a] & w[*b]) ^ (w[*a] & w[*c]) ^ (w[*b] & w[*c]),
        Op::Rebuild(a) | Op::RebuildBe(a) => w[*a],
    };
    let mut words: Vec<UInt32> = vec![];
    let mut vals: Vec<u32> = vec![];
    let n = r.range(2, 4);
    for _ in 0..n {
        let v = match r.below(5) {
            0 => 0,
            1 => u32::MAX,
            _ => r.u64() as u32,
        };
        vals.push(v);
        let w = match r.below(4) {
            0 => UInt32::constant(v),
            1 => {
                let ks = r.u64();
                let bits: Vec<Boolean> = (0..32).map(|i| x.bit(v >> i & 1 == 1, ks >> (i % 8))).collect();
                UInt32::from_bits(&bits)
            }
            _ => {
                let y = x.val(v);
                let w = UInt32::alloc::<F, _>(x.cs.ns(|| "w"), y)?;
                for b in w.clone().into_bits() {
                    let b = bref(&x.cs, &b);
                    if let B::Is(i) | B::Not(i) = b {
                        x.ins.push(i);
                    }
                    x.bools.push(b);
                }
                w
            }
        };
        words.push(w);
    }
    let mut ops = vec![];
    let mut report = Ok(());
    let nops = r.range(1, 4);
    {
        let mut m = MultiEq::new(&mut x.cs);
        for k in 0..nops {
            let l = words.len();
            let p = |r: &mut Rg| r.below(l);
            let op = match r.below(9) {
                0 => Op::Rotr(p(&mut r), r.below(40) % 32),
                1 => Op::Shr(p(&mut r), r.below(32)),
                2 | 3 => Op::Xor(p(&mut r), p(&mut r)),
                4 | 5 => {
                    let n = if r.pct(20) { r.range(6, 10) } else { r.range(2, 5) };
                    Op::Add((0..n).map(|_| p(&mut r)).collect())
                }
                6 => Op::Ch(p(&mut r), p(&mut r), p(&mut r)),
                7 => Op::Maj(p(&mut r), p(&mut r), p(&mut r)),
                _ => {
                    if r.pct(50) {
                        Op::Rebuild(p(&mut r))
                    } else {
                        Op::RebuildBe(p(&mut r))
                    }
                }
            };
            let cs = m.ns(|| format!("{}", k));
            let w = match &op {
                Op::Rotr(a, k) => words[*a].rotr(*k),
                Op::Shr(a, k) => words[*a].shr(*k),
                Op::Xor(a, b) => words[*a].xor(cs, &words[*b])?,
                Op::Add(v) => UInt32::addmany(cs, &v.iter().map(|i| words[*i].clone()).collect::<Vec<_>>())?,
                Op::Ch(a, b, c) => UInt32::sha256_ch(cs, &words[*a], &words[*b], &words[*c])?,
                Op::Maj(a, b, c) => UInt32::sha256_maj(cs, &words[*a], &words[*b], &words[*c])?,
                Op::Rebuild(a) => UInt32::from_bits(&words[*a].clone().into_bits()),
                Op::RebuildBe(a) => UInt32::from_bits_be(&words[*a].clone().into_bits_be()),
            };
            vals.push(apply(&op, &vals));
            words.push(w);
            ops.push(op);
        }
    }
    let refs: Vec<Vec<B>> = words.iter().map(|w| w.clone().into_bits().iter().map(|b| bref(&x.cs, b)).collect()).collect();
    if !blind {
        for (w, v) in words.iter().zip(&vals) {
            let got = w.clone().into_bits().iter().enumerate().fold(Some(0u32), |a, (i, b)| Some(a? | (b.get_value()? as u32) << i));
            if got != Some(*v) {
                report = Err(format!("word gadget reports {:x?} instead of {:x}", got, v));
            }
        }
    }
    let ins = x.bools.clone();
    Ok(x.done(
        "u32",
        true,
        report,
        Box::new(move |v| {
            for b in &ins {
                bval(*b, v)?;
            }
            let w: Vec<u32> = refs.iter().map(|b| word(b, v)).collect::<Result<_, _>>()?;
            for (k, o) in ops.iter().enumerate() {
                let e = apply(o, &w);
                if w[n + k] != e {
                    return Err(format!("word operation {} gives {:x} instead of {:x}", k, w[n + k], e));
                }
            }
            Ok(())
        }),
    ))
}

// ---- hash gadgets (C17) --------------------------------------------------
pub const HASHES: &[(&str, u64)] = &[("sha256", 3), ("sha256_block", 2), ("blake2s", 3), ("mimc", 3), ("poseidon", 3), ("rescue", 2), ("abs_sha256", 2), ("abs_mimc", 4), ("abs_poseidon", 3), ("abs_rescue", 2)];

fn fbytes(f: &F) -> Vec<u8> {
    let mut b = vec![];
    ark_ff::ToBytes::write(f, &mut b).unwrap();
    b
}
/// sha-256 of one 64-byte block without padding
fn sha_block(b: &[u8]) -> Vec<u8> {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    let mut v = h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// `data` seeds the preimage, everything structural comes from `seed`
pub fn build_hash(kind: &str, seed: u64, data: u64, blind: bool, big: bool) -> Result<Case, SynthesisError> {
    let mut r = Rg::new(seed);
    let mut d = Rg::new(data);
    let mut x = Bx::new(blind);
    let bytes = |r: &mut Rg, d: &mut Rg, cap: usize| -> Vec<u8> {
        let n = match r.below(6) {
            0 => *r.pick(&[0usize, 1, 31, 32, 33, 55, 56, 63, 64, 65]),
            _ => r.below(cap),
        };
        let style = d.below(6);
        (0..n.min(cap))
            .map(|_| match style {
                0 => 0xff,
                1 => 0,
                _ => d.u64() as u8,
            })
            .collect()
    };
    Ok(match kind {
        "sha256" | "blake2s" | "sha256_block" => {
            let cap = if big { 140 } else { 66 };
            let b = if kind == "sha256_block" { (0..64).map(|_| d.u64() as u8).collect() } else { bytes(&mut r, &mut d, cap) };
            let be = kind != "blake2s";
            let pers: Vec<u8> = (0..8).map(|_| r.u64() as u8).collect();
            let mut bits = vec![];
            let style = r.below(4);
            for (i, y) in b.iter().enumerate() {
                for k in 0..8 {
                    let v = if be { y >> (7 - k) & 1 == 1 } else { y >> k & 1 == 1 };
                    // constants must not depend on the data: take them from the structure
                    let kd = match style {
                        0 => 0,
                        1 => (i as u64 * 3 + k) % 7,
                        _ => (i as u64 + k) % 8 * (r.u64() & 1),
                    };
                    bits.push(x.bit(v, kd));
                }
            }
            let rs: Vec<B> = bits.iter().map(|b| bref(&x.cs, b)).collect();
            let cs = x.cs.ns(|| "h");
            let out = match kind {
                "sha256" => sha256::sha256::<F, _>(cs, &bits)?,
                "sha256_block" => sha256::sha256_block_no_padding::<F, _>(cs, &bits)?,
                _ => blake2s::blake2s::<F, _>(cs, &bits, &pers)?,
            };
            let k = kind.to_string();
            let refh = move |b: &[u8]| -> Vec<u8> {
                match k.as_str() {
                    "sha256" => Sha256::digest(b).to_vec(),
                    "sha256_block" => sha_block(b),
                    _ => Blake2sParams::new().hash_length(32).personal(&pers).to_state().update(b).finalize().as_bytes().to_vec(),
                }
            };
            let os: Vec<B> = out.iter().map(|b| bref(&x.cs, b)).collect();
            let by = if be { bytes_be } else { bytes_le };
            let mut report = Ok(());
            if !blind {
                let want = refh(&b);
                let got: Option<Vec<u8>> = out
                    .chunks(8)
                    .map(|c| c.iter().enumerate().try_fold(0u8, |a, (i, y)| y.get_value().map(|v| a | (v as u8) << if be { 7 - i } else { i })))
                    .collect();
                if got != Some(want.clone()) {
                    report = Err(format!("{} of {} bytes: gadget value is not the digest", kind, b.len()));
                }
            }
            x.done(
                kind,
                true,
                report,
                Box::new(move |v| {
                    let i = by(&rs, v)?;
                    if by(&os, v)? == refh(&i) {
                        Ok(())
                    } else {
                        Err("digest wires are not the digest of the preimage wires".into())
                    }
                }),
            )
        }
        "mimc" | "poseidon" | "rescue" => {
            let b = bytes(&mut r, &mut d, if big { 100 } else { 66 });
            let want: F = match kind {
                "mimc" => mimc::hash(&b),
                "poseidon" => poseidon::hash(&b),
                _ => rescue::hash(&b),
            };
            let mut report = Ok(());
            // every bit of the preimage decides the digest
            if !b.is_empty() {
                let mut b2 = b.clone();
                let i = r.below(b.len());
                b2[i] ^= 1 << r.below(8);
                let other: F = match kind {
                    "mimc" => mimc::hash(&b2),
                    "poseidon" => poseidon::hash(&b2),
                    _ => rescue::hash(&b2),
                };
                if other == want {
                    report = Err(format!("{}: byte {} of {} does not change the hash", kind, i, b.len()));
                }
            }
            let nblk = (b.len() + 31) / 32;
            let got: Option<F> = match kind {
                "mimc" => {
                    let o = if blind { None } else { Some(&b[..]) };
                    mimc::mimc(x.cs.ns(|| "h"), o)?
                }
                // these two take the preimage itself, in setup as well
                "poseidon" => Some(poseidon::poseidon(x.cs.ns(|| "h"), &b)?),
                _ => Some(rescue::rescue(x.cs.ns(|| "h"), &b)?),
            };
            if !blind && got != Some(want) {
                report = Err(format!("{} of {} bytes: gadget value is not the hash", kind, b.len()));
            }
            // what the statement can see: the public inputs
            let pubs: Vec<u32> = x.cs.inputs().into_iter().filter(|w| *w != 0).collect();
            // the preimage wires: those holding the blocks (private, allocated by the gadget)
            if !blind && kind != "mimc" {
                let blocks: Vec<F> = if b.is_empty() { vec![F::zero()] } else { b.chunks(32).map(F::from_le_bytes_mod_order).collect() };
                let mut pins = vec![];
                let mut from = 1usize;
                for blk in &blocks {
                    if let Some(w) = (from..x.cs.val.len()).find(|w| x.cs.val[*w] == Some(*blk)) {
                        pins.push(w as u32);
                        from = w + 1;
                    }
                }
                if pins.len() != blocks.len() {
                    report = report.and(Err(format!("{}: preimage wires not found", kind)));
                }
                x.ins = pins.clone();
                if pubs.len() != 1 || x.cs.val[pubs[0] as usize] != Some(want) {
                    report = report.and(Err(format!("{}: the public input is not the hash", kind)));
                }
                let k = kind.to_string();
                let p0 = pubs.first().cloned().unwrap_or(0);
                x.done(
                    kind,
                    true,
                    report,
                    Box::new(move |v| {
                        let h = pins.iter().fold(F::zero(), |h, w| fblock(&k, h, v[*w as usize]));
                        if h == v[p0 as usize] {
                            Ok(())
                        } else {
                            Err("public hash is not the hash of the preimage wires".into())
                        }
                    }),
                )
            } else if blind {
                x.done(kind, true, report, Box::new(|_| Ok(())))
            } else {
                // mimc(): block wires xl, xr; last wire is the image.  One block is what it covers.
                let last = x.cs.val.len() as u32 - 1;
                if x.cs.val[last as usize] != Some(want) {
                    report = report.and(Err("mimc: the last wire is not the hash".into()));
                }
                let _ = nblk;
                let (wl, wr) = (1u32, 2u32);
                let xr = if b.is_empty() { F::zero() } else { F::from_le_bytes_mod_order(b.chunks(32).last().unwrap()) };
                if x.cs.val[2] != Some(xr) {
                    report = report.and(Err("mimc: the second wire is not the last block".into()));
                }
                let full = r.pct(12);
                x.ins = if full { vec![wr] } else { vec![wl, wr] };
                let hb = want;
                x.done(
                    if full { "mimc()/free chaining value" } else { "mimc" },
                    true,
                    report,
                    Box::new(move |v| {
                        if full {
                            if v[wr as usize] == xr && v[last as usize] != hb {
                                return Err("mimc(): same preimage, another image".into());
                            }
                            return Ok(());
                        }
                        if fblock("mimc", v[wl as usize], v[wr as usize]) == v[last as usize] {
                            Ok(())
                        } else {
                            Err("image wire is not the MiMC block of the preimage wires".into())
                        }
                    }),
                )
            }
        }
        "abs_mimc" | "abs_poseidon" | "abs_rescue" => {
            let n = if kind == "abs_rescue" { r.range(1, 2) } else { r.range(1, 3) };
            let vals: Vec<F> = (0..n).map(|_| rfr(&mut d)).collect();
            let all: Vec<u8> = vals.iter().flat_map(fbytes).collect();
            let (ins, out, got): (Vec<Variable>, Vec<Variable>, Option<F>);
            macro_rules! go {
                ($m:ident, $o:ident, $h:ident) => {{
                    let ps: Vec<$m::$o<F>> = vals.iter().map(|v| $m::$o::alloc(x.cs.ns(|| "p"), if blind { None } else { Some(*v) })).collect::<Result<_, _>>()?;
                    ins = ps.iter().flat_map(|p| p.get_variables()).collect();
                    let o = $m::$h::<F>::hash_enforce(x.cs.ns(|| "h"), &ps.iter().collect::<Vec<_>>())?;
                    out = o.get_variables();
                    got = o.get_variable_values()[0];
                    $m::hash::<F>(&all)
                }};
            }
            let want: F = match kind {
                "abs_mimc" => go!(mimc, AbstractHashMimcOutput, AbstractHashMimc),
                "abs_poseidon" => go!(poseidon, AbstractHashPoseidonOutput, AbstractHashPoseidon),
                _ => go!(rescue, AbstractHashRescueOutput, AbstractHashRescue),
            };
            let iw: Vec<u32> = ins.iter().map(|v| x.cs.wire(*v)).collect();
            let ow = x.cs.wire(out[0]);
            x.ins = iw.clone();
            let mut report = Ok(());
            if !blind && (got != Some(want) || x.cs.val[ow as usize] != Some(want)) {
                report = Err(format!("{}: output is not the hash of the parameters", kind));
            }
            let k = kind[4..].to_string();
            x.done(
                kind,
                true,
                report,
                Box::new(move |v| {
                    let h = iw.iter().fold(F::zero(), |h, w| fblock(&k, h, v[*w as usize]));
                    if h == v[ow as usize] {
                        Ok(())
                    } else {
                        Err("output wire is not the hash of the parameter wires".into())
                    }
                }),
            )
        }
        "abs_sha256" => {
            let n = r.range(1, 2);
            let mut iw: Vec<B> = vec![];
            let mut ps = vec![];
            let mut all = vec![];
            for _ in 0..n {
                let l = *r.pick(&[1usize, 4, 32]);
                let b: Vec<u8> = (0..l).map(|_| d.u64() as u8).collect();
                let p = sha256::AbstractHashSha256Output::alloc::<F, _>(x.cs.ns(|| "p"), b.clone())?;
                for v in AbstractHashOutput::<F>::get_variables(&p) {
                    iw.push(B::Is(x.cs.wire(v)));
                }
                all.extend(b);
                ps.push(p);
            }
            x.ins = iw.iter().map(|b| if let B::Is(w) = b { *w } else { 0 }).collect();
            let o = sha256::AbstractHashSha256::<F>::hash_enforce(x.cs.ns(|| "h"), &ps.iter().collect::<Vec<_>>())?;
            let ow: Vec<B> = AbstractHashOutput::<F>::get_variables(&o).iter().map(|v| B::Is(x.cs.wire(*v))).collect();
            let mut report = Ok(());
            if !blind {
                let v: Vec<F> = x.cs.val.iter().map(|y| y.unwrap()).collect();
                if bytes_be(&ow, &v) != Ok(Sha256::digest(&all).to_vec()) {
                    report = Err("abs_sha256: output variables are not the digest".into());
                }
            }
            x.done(
                kind,
                true,
                report,
                Box::new(move |v| {
                    if bytes_be(&ow, v)? == Sha256::digest(&bytes_be(&iw, v)?).to_vec() {
                        Ok(())
                    } else {
                        Err("digest variables are not the digest of the parameter variables".into())
                    }
                }),
            )
        }
        _ => unreachable!(),
    })
}
fn fblock(kind: &str, l: F, r: F) -> F {
    match kind {
        // the reference block function is public for two of the three
        "poseidon" => {
            thread_local!(static C: poseidon::PoseidonConstant<F> = poseidon::constants());
            C.with(|c| poseidon::poseidon_block(l, r, c))
        }
        "rescue" => {
            thread_local!(static C: rescue::RescueConstant<F> = rescue::constants());
            C.with(|c| rescue::rescue_block(l, r, c))
        }
        _ => {
            thread_local!(static C: [F; mimc::MIMC_ROUNDS] = mimc::constants());
            C.with(|c| {
                let (mut xl, mut xr) = (l, r);
                for k in c.iter() {
                    let t = xl + k;
                    let n = t * t * t + xr;
                    xr = xl;
                    xl = n;
                }
                xl
            })
        }
    }
}

// ---- Merkle membership (C18) ---------------------------------------------
pub struct MSha;
impl cbmt::Merge for MSha {
    type Item = Vec<u8>;
    fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update(l);
        h.update(r);
        h.finalize().to_vec()
    }
}
pub struct MMimc;
impl cbmt::Merge for MMimc {
    type Item = F;
    fn merge(l: &F, r: &F) -> F {
        fblock("mimc", fblock("mimc", F::zero(), *l), *r)
    }
}
pub struct MPos;
impl cbmt::Merge for MPos {
    type Item = F;
    fn merge(l: &F, r: &F) -> F {
        fblock("poseidon", fblock("poseidon", F::zero(), *l), *r)
    }
}
type Tree<M, T> = cbmt::CBMT<T, M>;

pub const TREES: &[(&str, u64)] = &[("m_mimc", 5), ("m_poseidon", 2), ("m_sha256", 1)];

/// where a path of exactly the right length leads
fn climb<T: Clone>(mut idx: u32, leaf: &T, lem: &[T], merge: fn(&T, &T) -> T) -> Option<T> {
    let mut h = leaf.clone();
    for s in lem {
        if idx == 0 {
            return None;
        }
        h = if idx & 1 == 1 { merge(&h, s) } else { merge(s, &h) };
        idx = (idx - 1) >> 1;
    }
    if idx == 0 {
        Some(h)
    } else {
        None
    }
}
/// a prover bends the path: fewer steps from an inner node, more steps, another place
fn bend<T: Clone>(r: &mut Rg, nodes: &[T], idx: u32, lem: &mut Vec<T>, leaf: &mut T) -> u32 {
    match r.below(10) {
        0 if !lem.is_empty() => {
            // an inner node passed off as the leaf
            let k = r.range(1, lem.len());
            let mut a = idx;
            for _ in 0..k {
                a = (a - 1) >> 1;
            }
            *leaf = nodes[a as usize].clone();
            lem.drain(..k);
            if r.pct(70) {
                idx
            } else {
                a
            }
        }
        1 if !lem.is_empty() => {
            lem.pop();
            idx
        }
        2 => {
            lem.push(nodes[r.below(nodes.len())].clone());
            idx
        }
        3 => r.below(nodes.len()) as u32,
        4 => *r.pick(&[0u32, u32::MAX, 1 << 31, idx + 1, idx ^ 1]),
        _ => idx,
    }
}

pub fn build_tree(kind: &str, seed: u64, data: u64, blind: bool, big: bool) -> Result<Case, SynthesisError> {
    let mut r = Rg::new(seed);
    let mut d = Rg::new(data);
    let mut x = Bx::new(blind);
    let n = match kind {
        "m_sha256" => r.range(1, if big { 7 } else { 4 }),
        _ => r.range(1, if big { 40 } else { 9 }),
    };
    let i = r.below(n);
    // now and then the prover shows a leaf or path which is not in the tree
    let lie = d.below(6);
    macro_rules! case {
        ($name:expr, $al:ident, $gad:ty, $merge:expr, $t:expr, $leaf:expr, $lem:expr, $idx:expr, $root:expr, $read:ident) => {{
            let (leaf, lem, root) = ($leaf, $lem, $root);
            let idx = bend(&mut r, $t.nodes(), $idx, lem, leaf);
            let want = climb(idx, leaf, lem, $merge);
            let ok = want.as_ref() == Some(&root);
            let (ro, wr) = $al(&mut x, &root)?;
            let (lf, wl) = $al(&mut x, leaf)?;
            let mut ls = vec![];
            let mut wls = vec![];
            for l in lem.iter() {
                let (o, w) = $al(&mut x, l)?;
                ls.push(o);
                wls.push(w);
            }
            x.ins = wr.iter().chain(wl.iter()).map(|b| if let B::Is(w) = b { *w } else { 0 }).collect();
            let g = <$gad>::new(idx, ls);
            match g.set_membership(x.cs.ns(|| "m"), ro, lf) {
                Err(SynthesisError::Unsatisfiable) if want.is_none() => return Ok(x.done(concat!("refused path ", $name), true, Ok(()), Box::new(|_| Ok(())))),
                e => e?,
            }
            Ok(x.done(
                concat!("membership ", $name),
                ok,
                Ok(()),
                Box::new(move |v| {
                    let mut path = vec![];
                    for l in &wls {
                        path.push($read(l, v)?);
                    }
                    match climb(idx, &$read(&wl, v)?, &path, $merge) {
                        Some(h) if h == $read(&wr, v)? => Ok(()),
                        _ => Err("membership is satisfied though leaf and path do not lead to the root".into()),
                    }
                }),
            ))
        }};
    }
    match kind {
        "m_sha256" => {
            let leaves: Vec<Vec<u8>> = (0..n).map(|_| (0..32).map(|_| d.u64() as u8).collect()).collect();
            let t = Tree::<MSha, _>::build_merkle_tree(leaves.clone());
            let p = t.build_proof(&(i as u32)).expect("proof of a member");
            let mut leaf = leaves[i].clone();
            if lie == 0 {
                leaf[d.below(32)] ^= 1 << d.below(8);
            }
            let mut lem = p.lemmas().to_vec();
            if lie == 1 && !lem.is_empty() {
                let k = d.below(lem.len());
                let j = d.below(32);
                lem[k][j] ^= 1 << d.below(8);
            }
            let al = |x: &mut Bx, b: &Vec<u8>| -> Result<(sha256::AbstractHashSha256Output, Vec<B>), SynthesisError> {
                let o = sha256::AbstractHashSha256Output::alloc::<F, _>(x.cs.ns(|| "a"), b.clone())?;
                let w = AbstractHashOutput::<F>::get_variables(&o).iter().map(|v| B::Is(x.cs.wire(*v))).collect();
                Ok((o, w))
            };
            case!("sha256", al, MerkleProofGadget::<u32, F, sha256::AbstractHashSha256<F>>, <MSha as cbmt::Merge>::merge, t, &mut leaf, &mut lem, *p.index(), t.root(), bytes_be)
        }
        _ => {
            macro_rules! go {
                ($m:ident, $merge:ident, $o:ident, $h:ident) => {{
                    let leaves: Vec<F> = (0..n).map(|_| rfr(&mut d)).collect();
                    let t = Tree::<$merge, _>::build_merkle_tree(leaves.clone());
                    let p = t.build_proof(&(i as u32)).expect("proof of a member");
                    let mut leaf = leaves[i];
                    if lie == 0 {
                        leaf += F::one();
                    }
                    let mut lem = p.lemmas().to_vec();
                    if lie == 1 && !lem.is_empty() {
                        let k = d.below(lem.len());
                        lem[k] += F::one();
                    }
                    let mut root = t.root();
                    if lie == 2 {
                        root += F::one();
                    }
                    let al = |x: &mut Bx, b: &F| -> Result<($m::$o<F>, Vec<B>), SynthesisError> {
                        let o = $m::$o::alloc(x.cs.ns(|| "a"), if blind { None } else { Some(*b) })?;
                        let w = x.cs.wire(o.get_variables()[0]);
                        Ok((o, vec![B::Is(w)]))
                    };
                    let one = |w: &[B], v: &[F]| -> Result<F, String> {
                        match w[0] {
                            B::Is(w) => Ok(v[w as usize]),
                            _ => unreachable!(),
                        }
                    };
                    case!(stringify!($m), al, MerkleProofGadget::<u32, F, $m::$h<F>>, <$merge as cbmt::Merge>::merge, t, &mut leaf, &mut lem, *p.index(), root, one)
                }};
            }
            if kind == "m_mimc" {
                go!(mimc, MMimc, AbstractHashMimcOutput, AbstractHashMimc)
            } else {
                go!(poseidon, MPos, AbstractHashPoseidonOutput, AbstractHashPoseidon)
            }
        }
    }
}

// ---- the check -----------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum Fam {
    Arith,
    Hash,
    Tree,
}
pub struct Gadg {
    pub id: &'static str,
    pub fam: Fam,
    pub runs: (u64, u64),
}
/// a gadget synthesised while its k-th allocation fails: (it was reached, the result), or a panic
pub fn failing(fam: Fam, kind: &str, seed: u64, data: u64, k: u64) -> Result<(bool, Result<(), SynthesisError>), String> {
    FAIL.with(|f| f.set(Some((k, false))));
    let r = catch(|| make(fam, kind, seed, data, false, false).map(|_| ()));
    let hit = FAIL.with(|f| f.replace(None)).map(|x| x.1).unwrap_or(false);
    r.map(|r| (hit, r))
}
/// allocations made by a gadget
pub fn allocations(fam: Fam, kind: &str, seed: u64, data: u64) -> Option<u64> {
    catch(|| make(fam, kind, seed, data, false, false).map(|c| c.cs.allocs)).ok()?.ok()
}
pub fn kind_of(r: &mut Rg) -> (Fam, &'static str) {
    match r.below(10) {
        0..=5 => (Fam::Arith, *r.pick(ARITH)),
        6..=8 => (Fam::Hash, wpick(r, HASHES)),
        _ => (Fam::Tree, wpick(r, TREES)),
    }
}
fn make(fam: Fam, kind: &str, seed: u64, data: u64, blind: bool, big: bool) -> Result<Case, SynthesisError> {
    match fam {
        Fam::Arith => build(kind, seed, blind),
        Fam::Hash => build_hash(kind, seed, data, blind, big),
        Fam::Tree => build_tree(kind, seed, data, blind, big),
    }
}
fn wpick(r: &mut Rg, v: &[(&'static str, u64)]) -> &'static str {
    let t: u64 = v.iter().map(|x| x.1).sum();
    let mut k = r.below(t as usize) as u64;
    for (n, w) in v {
        if k < *w {
            return n;
        }
        k -= w;
    }
    unreachable!()
}
impl Check for Gadg {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.runs.0
        } else {
            self.runs.1
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let kind = match self.fam {
            Fam::Arith => *r.pick(ARITH),
            Fam::Hash => wpick(&mut r, HASHES),
            Fam::Tree => wpick(&mut r, TREES),
        };
        let n = if self.fam == Fam::Arith { r.range(6, 14) } else { r.range(4, 8) };
        let attacks: Vec<Value> = (0..n)
            .map(|_| {
                let how = match self.fam {
                    Fam::Arith => *r.pick(&["solve", "solve", "solve", "free", "free", "local", "pair"]),
                    _ => *r.pick(&["solve", "local", "local", "splice", "splice", "late", "single", "free"]),
                };
                json!({"how": how, "s": r.seed()})
            })
            .collect();
        json!({"kind": kind, "seed": r.seed(), "data": r.seed(), "big": t == Tier::Thorough && r.pct(50), "attacks": attacks})
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let kind = plan["kind"].as_str().unwrap();
        let (seed, data, big) = (plan["seed"].as_u64().unwrap(), plan["data"].as_u64().unwrap(), plan["big"].as_bool().unwrap_or(false));
        let mk = |data: u64, blind: bool| match catch(|| make(self.fam, kind, seed, data, blind, big)) {
            Err(p) => viol(format!("{} panic {}", kind, panic_site(&p)), format!("{} synthesis panics: {}", kind, p)),
            Ok(Err(e)) => viol(format!("{} synthesis-error", kind), format!("{} synthesis (blind={}) fails: {}", kind, blind, e)),
            Ok(Ok(c)) => Ok(c),
        };
        st.inc(&format!("gadget.{}", kind));
        let c = mk(data, false)?;
        st.inc("judged");
        st.ev(format!("{} {} wires {} constraints", c.label, c.cs.val.len(), c.cs.cons.len()));
        st.set("shapes", c.cs.shape());
        if let Err(e) = &c.report {
            return viol(format!("{} value", c.label), e.clone());
        }
        if c.cs.ns_depth != 0 {
            return viol(format!("{} namespaces", c.label), "namespaces left open");
        }
        let hv: Vec<F> = c.cs.val.iter().map(|v| v.unwrap()).collect();
        let sat = c.cs.satisfied();
        match (sat, c.ok) {
            (Some(k), true) => return viol(format!("{} honest-unsatisfied", c.label), format!("honest wires violate constraint {}", k)),
            (None, false) => return viol(format!("{} accepts-false", c.label), "wires of a false statement satisfy every constraint"),
            (None, true) => {
                if let Err(e) = (c.post)(&hv) {
                    return viol(format!("{} honest-wrong", c.label), format!("honest wires: {}", e));
                }
            }
            _ => st.inc("fault.false_statement"),
        }
        st.ev(format!("honest {:?}", sat));
        // setup sees the same circuit without any value
        let b = mk(data, true)?;
        let refused = self.fam == Fam::Arith && kind == "fr" && c.cs.val.len() == 1;
        if !refused && b.cs.shape() != c.cs.shape() {
            return viol(format!("{} shape", c.label), "constraints without values differ from those of the prover");
        }
        let s = Sys::new(&c.cs);
        let pins = |ws: &[u32]| -> BTreeMap<u32, F> { ws.iter().filter(|w| **w != 0).map(|w| (*w, hv[*w as usize])).collect() };
        let mut fixed = c.pins.clone();
        fixed.extend(&c.public);
        for a in plan["attacks"].as_array().unwrap() {
            let how = a["how"].as_str().unwrap();
            let mut r = Rg::new(a["s"].as_u64().unwrap());
            st.inc(&format!("fault.{}", how));
            let mut g = 0u64;
            let found = match how {
                // inputs as the statement fixes them, every other wire up to the prover
                "solve" => {
                    let pol = if r.pct(50) { Policy::DeviateAt(r.below(6) as u32) } else { Policy::Random(*r.pick(&[20u64, 60, 100])) };
                    solve(&s, &pins(&fixed), &mut r, pol, &mut g)
                }
                // the prover also owns the inputs
                "free" => {
                    let mut p = pins(&c.public);
                    if r.pct(60) {
                        // keep some of the inputs
                        let keep: Vec<u32> = c.pins.iter().filter(|_| r.pct(60)).cloned().collect();
                        p.extend(pins(&keep));
                    }
                    let pol = if r.pct(50) { Policy::DeviateAt(r.below(5) as u32) } else { Policy::Random(*r.pick(&[10u64, 50, 100])) };
                    solve(&s, &p, &mut r, pol, &mut g)
                }
                "pair" if sat.is_some() => None,
                "pair" => pair_flip(&s, &pins(&fixed), &mut r),
                "splice" => {
                    // another honest run of the same circuit supplies the later wires
                    let o = mk(mix2(data, r.below(3) as u64 + 1) >> 16, false)?;
                    if o.cs.shape() != c.cs.shape() {
                        st.ev("splice other shape");
                        None
                    } else {
                        let ov: Vec<F> = o.cs.val.iter().map(|v| v.unwrap()).collect();
                        let n = s.honest.len();
                        let mut hit = None;
                        for _ in 0..3 {
                            let cut = if r.pct(15) { 0 } else { r.below(n + 1) };
                            hit = splice(&s, &ov, &pins(&fixed), cut as u32, &mut r);
                            if hit.as_ref().map(|v| (c.post)(v).is_err()).unwrap_or(false) {
                                break;
                            }
                        }
                        hit
                    }
                }
                // one wire, then mend what it broke
                _ => {
                    let n = s.honest.len();
                    let mut hit = None;
                    if sat.is_none() && n > 1 {
                        let steps = if how == "single" { 0 } else { 400 };
                        for _ in 0..if how == "single" { 400 } else { 12 } {
                            let w = if how == "late" { n - 1 - r.below(n.min(600).max(2) - 1) } else { r.range(1, n - 1) } as u32;
                            if fixed.contains(&w) {
                                continue;
                            }
                            let h = s.honest[w as usize];
                            let x = match r.below(4) {
                                0 => F::one() - h,
                                1 => F::from(2u64),
                                2 => F::from(r.u64()),
                                _ => h + F::one(),
                            };
                            if x == h {
                                continue;
                            }
                            st.inc("fault.wire_tamper");
                            hit = local(&s, s.honest.clone(), &pins(&fixed), vec![(w, x)], &mut r, steps.max(1));
                            if hit.as_ref().map(|v| (c.post)(v).is_err()).unwrap_or(false) {
                                break;
                            }
                        }
                    }
                    hit
                }
            };
            st.add("prover_guesses", g);
            if let Some(v) = found {
                if s.cons.iter().any(|k| !holds(k, &v)) {
                    panic!("solver returned an assignment that violates a constraint");
                }
                st.inc("satisfying_assignments");
                if v != s.honest {
                    st.inc("dishonest_satisfying_assignments");
                }
                st.set("assignments", fnv(&v.iter().flat_map(fbytes).collect::<Vec<u8>>()));
                if let Err(e) = (c.post)(&v) {
                    let diff = v.iter().zip(&s.honest).filter(|p| p.0 != p.1).count();
                    return viol(
                        format!("{} forged", c.label),
                        format!("{}: every constraint holds with {} of {} wires chosen dishonestly ({}), yet {}", c.label, diff, v.len(), how, e),
                    );
                }
                st.ev(format!("{} satisfied, sound", how));
            } else {
                st.ev(format!("{} stuck", how));
            }
        }
        Ok(())
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let a = plan["attacks"].as_array().cloned().unwrap_or_default();
        let mut out = vec![];
        if a.len() > 1 {
            for x in &a {
                let mut p = plan.clone();
                p["attacks"] = json!([x]);
                out.push(p);
            }
        } else if a.len() == 1 {
            let mut p = plan.clone();
            p["attacks"] = json!([]);
            out.push(p);
        }
        // smaller instances of the same gadget
        for s in 0..12u64 {
            let mut p = plan.clone();
            if plan["seed"].as_u64().unwrap_or(0) > s {
                p["seed"] = json!(s);
                out.push(p);
            }
        }
        out
    }
    fn rule(&self) -> String {
        "one run = one synthesis of a gadget with seeded operands, its value-free twin, and several seeded dishonest provers (propagating solver, two-run splice, wire tamper with repair, cancelling pairs); distinct = different traces (gadget, size, outcome of every attack)".into()
    }
    fn components(&self) -> Value {
        json!({"real": "zkp-gadgets, zkp-r1cs linear combinations", "stub": "the constraint system (records wires and constraints)", "reference": "bit and word operations, sha2, blake2s_simd, native field hashes"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["dishonest wires are searched for, not excluded by proof".into()]
    }
}
