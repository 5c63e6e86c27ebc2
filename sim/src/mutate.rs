//! Changes made to messages on their way, or by a dishonest sender.
use crate::schemes::CurveId;
use crate::util::*;
use ark_bls12_381::{Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{to_bytes, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde::{Deserialize, Serialize};
use zkp_curve25519::{Curve25519, Fr as Fr25};
use zkp_curve::Curve;

type P25 = <Curve25519 as Curve>::Affine;
type J25 = <Curve25519 as Curve>::Projective;

/// How one encoded element is changed.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum El {
    Random,
    Zero,
    Neg,
    Inc,
    Double,
    /// another slot of the same width in the same message
    Other,
    /// the same slot of another honest message of the same context
    Foreign,
}
pub const ELS: [El; 7] = [El::Random, El::Zero, El::Neg, El::Inc, El::Double, El::Other, El::Foreign];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    /// change element number (pick mod count)
    Elem { pick: u64, el: El, seed: u64 },
    /// length prefix changed by d, elements added/removed to match when it can be made to decode
    Len { pick: u64, d: i64, fit: bool },
    /// length prefix replaced outright
    LenSet { pick: u64, v: u64 },
    Swap { a: u64, b: u64 },
    Flag { pick: u64, v: u8 },
    /// an optional component left out, or one supplied where there is none
    Toggle { pick: u64 },
    Bits { at: u64, mask: u8 },
    Trunc { keep: u64 },
    Append { n: u64 },
    AllZero,
    Garbage { seed: u64, len: u64 },
    /// replace the whole message by another honest one of the context
    Replace,
    /// element taken from the verification key
    FromVk { pick: u64, at: u64 },
}
impl Mut {
    pub fn kind(&self) -> &'static str {
        match self {
            Mut::Elem { el, .. } => match el {
                El::Random => "element-random",
                El::Zero => "element-identity",
                El::Neg => "element-negated",
                El::Inc => "element-incremented",
                El::Double => "element-doubled",
                El::Other => "element-copied-within",
                El::Foreign => "element-spliced-from-other-proof",
            },
            Mut::Len { .. } => "vector-grown-or-shrunk",
            Mut::LenSet { .. } => "length-forged",
            Mut::Swap { .. } => "elements-swapped",
            Mut::Flag { .. } => "flag-forged",
            Mut::Toggle { .. } => "optional-part-toggled",
            Mut::Bits { .. } => "bit-corruption",
            Mut::Trunc { .. } => "truncated",
            Mut::Append { .. } => "trailing-bytes",
            Mut::AllZero => "all-identity",
            Mut::Garbage { .. } => "garbage",
            Mut::Replace => "replaced",
            Mut::FromVk { .. } => "element-from-key",
        }
    }
    /// one random semantic change (decodable more often than not)
    pub fn gen(r: &mut Rg) -> Mut {
        match r.below(20) {
            0..=10 => Mut::Elem { pick: r.seed(), el: *r.pick(&ELS), seed: r.seed() },
            11 | 12 => Mut::Len { pick: r.seed(), d: *r.pick(&[-1, 1, -1, 1, -2, 2]), fit: true },
            13 => Mut::Swap { a: r.seed(), b: r.seed() },
            14 => Mut::Bits { at: r.seed(), mask: 1 << r.below(8) },
            15 => Mut::Trunc { keep: r.seed() },
            16 => {
                if r.pct(50) {
                    Mut::Flag { pick: r.seed(), v: *r.pick(&[0, 1, 2, 255]) }
                } else {
                    Mut::Toggle { pick: r.seed() }
                }
            }
            17 => Mut::FromVk { pick: r.seed(), at: r.seed() },
            18 => Mut::AllZero,
            _ => Mut::Len { pick: r.seed(), d: *r.pick(&[-1, 1]), fit: false },
        }
    }
    /// adversarial structure for crash hunting
    pub fn gen_hostile(r: &mut Rg) -> Mut {
        match r.below(20) {
            0..=5 => Mut::Len { pick: r.seed(), d: *r.pick(&[-1, 1, -1, 1, -2, 2, -3, 4]), fit: true },
            6..=8 => Mut::Len { pick: r.seed(), d: -(1 + r.below(64) as i64), fit: true },
            9 => Mut::LenSet { pick: r.seed(), v: *r.pick(&[0, 1, 2, 1 << 20, u64::MAX, 1 << 32]) },
            10 => Mut::Garbage { seed: r.seed(), len: r.below(400) as u64 },
            11 => Mut::AllZero,
            12 => Mut::Trunc { keep: r.seed() },
            13 => Mut::Bits { at: r.seed(), mask: 1 << r.below(8) },
            14 => {
                if r.pct(30) {
                    Mut::Flag { pick: r.seed(), v: *r.pick(&[0, 1, 2, 255]) }
                } else {
                    Mut::Toggle { pick: r.seed() }
                }
            }
            15 => Mut::Swap { a: r.seed(), b: r.seed() },
            16 => Mut::Append { n: 1 + r.below(40) as u64 },
            _ => Mut::Elem { pick: r.seed(), el: *r.pick(&[El::Zero, El::Zero, El::Random, El::Neg, El::Other]), seed: r.seed() },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    G1,
    G2,
    Scalar,
    P25,
    S25,
    Len,
    Flag,
    Raw,
}
#[derive(Clone, Copy, Debug)]
pub struct Slot {
    pub off: usize,
    pub len: usize,
    pub kind: Kind,
}
/// Assign kinds to recorded write boundaries.
pub fn layout(curve: CurveId, b: &[u8], lens: &[usize]) -> Vec<Slot> {
    let mut v = vec![];
    let mut off = 0;
    let mut i = 0;
    while i < lens.len() {
        let l = lens[i];
        let kind = match (curve, l) {
            (_, 8) => Kind::Len,
            (_, 1) => Kind::Flag,
            (CurveId::Bls, 32) => Kind::Scalar,
            (CurveId::Bls, 48) => {
                // a G2 element is written as two 48-byte halves; the first carries no flags
                if i + 1 < lens.len() && lens[i + 1] == 48 && off + 96 <= b.len() {
                    let one = G1Affine::deserialize(&b[off..off + 48]).is_ok();
                    let two = G2Affine::deserialize(&b[off..off + 96]).is_ok();
                    if two && !one {
                        v.push(Slot { off, len: 96, kind: Kind::G2 });
                        off += 96;
                        i += 2;
                        continue;
                    }
                }
                Kind::G1
            }
            (CurveId::Bls, 96) => Kind::G2,
            (CurveId::C25519, 32) => {
                if P25::deserialize(&b[off..off + 32]).is_ok() && Fr25::deserialize(&b[off..off + 32]).is_err() {
                    Kind::P25
                } else {
                    Kind::S25
                }
            }
            _ => Kind::Raw,
        };
        v.push(Slot { off, len: l, kind });
        off += l;
        i += 1;
    }
    v
}

fn enc<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
fn scalar<F: PrimeField>(b: &[u8], el: El, seed: u64) -> Option<Vec<u8>> {
    let x = F::deserialize(b).ok()?;
    Some(enc(&match el {
        El::Random | El::Foreign => F::rand(&mut SimRng::new(seed)),
        El::Zero | El::Other => F::zero(),
        El::Neg => -x,
        El::Inc => x + F::one(),
        El::Double => x + x,
    }))
}
macro_rules! point {
    ($name:ident, $A:ty, $J:ty) => {
        fn $name(b: &[u8], el: El, seed: u64) -> Option<Vec<u8>> {
            let x = <$A>::deserialize(b).ok()?;
            let j: $J = x.into();
            Some(enc(&match el {
                El::Random | El::Foreign => <$J>::rand(&mut SimRng::new(seed)).into_affine(),
                El::Zero | El::Other => <$A>::zero(),
                El::Neg => -x,
                El::Inc => (j + <$A as AffineCurve>::prime_subgroup_generator().into_projective()).into_affine(),
                El::Double => (j + j).into_affine(),
            }))
        }
    };
}
point!(g1, G1Affine, G1Projective);
point!(g2, G2Affine, G2Projective);
point!(p25, P25, J25);

/// The changed encoding of one element.
pub fn elem(kind: Kind, b: &[u8], el: El, seed: u64) -> Option<Vec<u8>> {
    match kind {
        Kind::G1 => g1(b, el, seed),
        Kind::G2 => g2(b, el, seed),
        Kind::Scalar => scalar::<Fr>(b, el, seed),
        Kind::P25 => p25(b, el, seed),
        Kind::S25 => scalar::<Fr25>(b, el, seed).or_else(|| p25(b, el, seed)),
        _ => None,
    }
}
/// The encoding of a - b.
pub fn sub(kind: Kind, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    fn s<F: PrimeField>(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
        Some(enc(&(F::deserialize(a).ok()? - F::deserialize(b).ok()?)))
    }
    fn p<A: AffineCurve>(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
        let (a, b) = (A::deserialize(a).ok()?, A::deserialize(b).ok()?);
        Some(enc(&(a.into_projective() - b.into_projective()).into_affine()))
    }
    match kind {
        Kind::G1 => p::<G1Affine>(a, b),
        Kind::G2 => p::<G2Affine>(a, b),
        Kind::P25 => p::<P25>(a, b),
        Kind::Scalar => s::<Fr>(a, b),
        Kind::S25 => s::<Fr25>(a, b),
        _ => None,
    }
}
/// The transcript form (`to_bytes!`) of an encoded element.
pub fn wire_to_transcript(kind: Kind, b: &[u8]) -> Option<Vec<u8>> {
    match kind {
        Kind::G1 => G1Affine::deserialize(b).ok().map(|x| to_bytes!(x).unwrap()),
        Kind::G2 => G2Affine::deserialize(b).ok().map(|x| to_bytes!(x).unwrap()),
        Kind::Scalar => Fr::deserialize(b).ok().map(|x| to_bytes!(x).unwrap()),
        Kind::P25 => P25::deserialize(b).ok().map(|x| to_bytes!(x).unwrap()),
        Kind::S25 => Fr25::deserialize(b)
            .ok()
            .map(|x| to_bytes!(x).unwrap())
            .or_else(|| P25::deserialize(b).ok().map(|x| to_bytes!(x).unwrap())),
        _ => None,
    }
}
/// Which slot an Elem mutation addresses, and its replacement encoding.
pub fn pick_elem(slots: &[Slot], b: &[u8], pick: u64, el: El, seed: u64, foreign: Option<&[u8]>) -> Option<(usize, Vec<u8>)> {
    let els: Vec<usize> = (0..slots.len()).filter(|i| !matches!(slots[*i].kind, Kind::Len | Kind::Flag | Kind::Raw)).collect();
    if els.is_empty() {
        return None;
    }
    let i = els[(pick % els.len() as u64) as usize];
    let s = slots[i];
    let cur = &b[s.off..s.off + s.len];
    let new = match el {
        El::Other => {
            let same: Vec<usize> = els.iter().cloned().filter(|j| *j != i && slots[*j].kind == s.kind).collect();
            if same.is_empty() {
                return None;
            }
            let o = slots[same[(seed % same.len() as u64) as usize]];
            b[o.off..o.off + o.len].to_vec()
        }
        El::Foreign => foreign.and_then(|f| f.get(s.off..s.off + s.len)).map(|x| x.to_vec())?,
        _ => elem(s.kind, cur, el, seed)?,
    };
    Some((i, new))
}

/// Apply one mutation to an encoded message.  `ok` tells whether candidate bytes decode.
pub fn apply(
    m: &Mut,
    curve: CurveId,
    b: &[u8],
    lens: &[usize],
    foreign: Option<&[u8]>,
    vk: &[u8],
    ok: &dyn Fn(&[u8]) -> bool,
) -> Option<Vec<u8>> {
    let slots = layout(curve, b, lens);
    let splice = |s: &Slot, new: &[u8]| {
        let mut v = b[..s.off].to_vec();
        v.extend_from_slice(new);
        v.extend_from_slice(&b[s.off + s.len..]);
        v
    };
    let of = |k: Kind| -> Vec<usize> { (0..slots.len()).filter(|i| slots[*i].kind == k).collect() };
    match m {
        Mut::Elem { pick, el, seed } => {
            let (i, new) = pick_elem(&slots, b, *pick, *el, *seed, foreign)?;
            Some(splice(&slots[i], &new))
        }
        Mut::FromVk { pick, at } => {
            let els: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].len >= 32).collect();
            if els.is_empty() || vk.is_empty() {
                return None;
            }
            let s = slots[els[(*pick % els.len() as u64) as usize]];
            // try offsets of the key until one decodes
            let n = vk.len();
            for k in 0..n {
                let o = (*at as usize + k) % n;
                if o + s.len > n {
                    continue;
                }
                let c = &vk[o..o + s.len];
                if c != &b[s.off..s.off + s.len] && wire_to_transcript(s.kind, c).is_some() {
                    return Some(splice(&s, c));
                }
                if k > 200 {
                    break;
                }
            }
            None
        }
        Mut::Len { pick, d, fit } => {
            let ls = of(Kind::Len);
            if ls.is_empty() {
                return None;
            }
            let i = ls[(*pick % ls.len() as u64) as usize];
            let s = slots[i];
            let v = u64::from_le_bytes(b[s.off..s.off + 8].try_into().unwrap());
            let nv = (v as i64 + d).max(0) as u64;
            if nv == v {
                return None;
            }
            let mut h = b[..s.off].to_vec();
            h.extend_from_slice(&nv.to_le_bytes());
            if !*fit {
                h.extend_from_slice(&b[s.off + 8..]);
                return Some(h);
            }
            let rest = i + 1;
            let steps = (nv as i64 - v as i64).unsigned_abs() as usize;
            // an element of the vector spans j slots; find a j that decodes
            for j in 1..=24usize {
                let mut c = h.clone();
                if nv < v {
                    let drop = steps * j;
                    if rest + drop > slots.len() {
                        break;
                    }
                    let from = if rest + drop == slots.len() { b.len() } else { slots[rest + drop].off };
                    c.extend_from_slice(&b[from..]);
                } else {
                    if rest + j > slots.len() || v == 0 {
                        break;
                    }
                    let end = if rest + j == slots.len() { b.len() } else { slots[rest + j].off };
                    for _ in 0..steps.min(8) {
                        c.extend_from_slice(&b[s.off + 8..end]);
                    }
                    c.extend_from_slice(&b[s.off + 8..]);
                }
                if ok(&c) {
                    return Some(c);
                }
            }
            let mut c = h;
            c.extend_from_slice(&b[s.off + 8..]);
            Some(c)
        }
        Mut::LenSet { pick, v } => {
            let ls = of(Kind::Len);
            if ls.is_empty() {
                return None;
            }
            Some(splice(&slots[ls[(*pick % ls.len() as u64) as usize]], &v.to_le_bytes()))
        }
        Mut::Flag { pick, v } => {
            let ls = of(Kind::Flag);
            if ls.is_empty() {
                return None;
            }
            Some(splice(&slots[ls[(*pick % ls.len() as u64) as usize]], &[*v]))
        }
        Mut::Toggle { pick } => {
            let ls = of(Kind::Flag);
            if ls.is_empty() {
                return None;
            }
            let i = ls[(*pick % ls.len() as u64) as usize];
            let s = slots[i];
            let on = b[s.off] != 0;
            for j in 1..=6usize {
                let mut c = b[..s.off].to_vec();
                c.push(!on as u8);
                if on {
                    if i + j >= slots.len() + 1 {
                        break;
                    }
                    let from = if i + 1 + j >= slots.len() { b.len() } else { slots[i + 1 + j].off };
                    c.extend_from_slice(&b[from..]);
                } else {
                    if i < j {
                        break;
                    }
                    c.extend_from_slice(&b[slots[i - j].off..s.off]);
                    c.extend_from_slice(&b[s.off + 1..]);
                }
                if ok(&c) {
                    return Some(c);
                }
            }
            None
        }
        Mut::Swap { a, b: bb } => {
            let els: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].len >= 32).collect();
            if els.is_empty() {
                return None;
            }
            let i = els[(*a % els.len() as u64) as usize];
            let same: Vec<usize> = els.iter().cloned().filter(|j| *j != i && slots[*j].len == slots[i].len).collect();
            if same.is_empty() {
                return None;
            }
            let j = same[(*bb % same.len() as u64) as usize];
            let (x, y) = (slots[i], slots[j]);
            let mut v = b.to_vec();
            v[x.off..x.off + x.len].copy_from_slice(&b[y.off..y.off + y.len]);
            v[y.off..y.off + y.len].copy_from_slice(&b[x.off..x.off + x.len]);
            Some(v)
        }
        Mut::Bits { at, mask } => {
            if b.is_empty() {
                return None;
            }
            let mut v = b.to_vec();
            let i = (*at % b.len() as u64) as usize;
            v[i] ^= *mask;
            Some(v)
        }
        Mut::Trunc { keep } => {
            if b.is_empty() {
                return None;
            }
            Some(b[..(*keep % b.len() as u64) as usize].to_vec())
        }
        Mut::Append { n } => {
            let mut v = b.to_vec();
            v.extend((0..*n).map(|i| i as u8));
            Some(v)
        }
        Mut::AllZero => {
            let mut v = b.to_vec();
            for s in &slots {
                if let Some(z) = elem(s.kind, &b[s.off..s.off + s.len], El::Zero, 0) {
                    v[s.off..s.off + s.len].copy_from_slice(&z);
                }
            }
            Some(v)
        }
        Mut::Garbage { seed, len } => {
            let mut v = vec![0u8; *len as usize];
            rand::RngCore::fill_bytes(&mut SimRng::new(*seed), &mut v);
            Some(v)
        }
        Mut::Replace => foreign.map(|f| f.to_vec()),
    }
}

/// Changes to a public statement.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SMut {
    Set { pick: u64, el: El, seed: u64 },
    Drop { group: u64 },
    Extra { group: u64, v: u8 },
    Swap { pick: u64 },
    SwapGroups { a: u64, b: u64 },
    Empty { group: u64 },
    /// remove / duplicate a whole group
    DropGroup { group: u64 },
    DupGroup { group: u64 },
}
impl SMut {
    pub fn kind(&self) -> &'static str {
        match self {
            SMut::Set { .. } => "statement-value",
            SMut::Drop { .. } => "statement-short",
            SMut::Extra { .. } => "statement-long",
            SMut::Swap { .. } => "statement-reordered",
            SMut::SwapGroups { .. } => "statement-groups-swapped",
            SMut::Empty { .. } => "statement-emptied",
            SMut::DropGroup { .. } => "statement-instance-missing",
            SMut::DupGroup { .. } => "statement-instance-duplicated",
        }
    }
    pub fn gen(r: &mut Rg) -> SMut {
        match r.below(13) {
            0..=4 => SMut::Set { pick: r.seed(), el: *r.pick(&[El::Inc, El::Random, El::Zero, El::Neg, El::Other]), seed: r.seed() },
            5 | 6 => SMut::Drop { group: r.seed() },
            7 | 8 => SMut::Extra { group: r.seed(), v: r.below(3) as u8 },
            9 => SMut::Swap { pick: r.seed() },
            10 => SMut::SwapGroups { a: r.seed(), b: r.seed() },
            11 => SMut::Empty { group: r.seed() },
            _ => {
                if r.pct(50) {
                    SMut::DropGroup { group: r.seed() }
                } else {
                    SMut::DupGroup { group: r.seed() }
                }
            }
        }
    }
    pub fn apply<F: PrimeField>(&self, s: &[Vec<F>], shape_fixed: bool) -> Option<Vec<Vec<F>>> {
        let mut o: Vec<Vec<F>> = s.to_vec();
        let n = o.len() as u64;
        if n == 0 {
            return None;
        }
        match self {
            SMut::Set { pick, el, seed } => {
                let tot: usize = o.iter().map(|g| g.len()).sum();
                if tot == 0 {
                    return None;
                }
                let mut k = (*pick % tot as u64) as usize;
                let flat: Vec<F> = o.iter().flatten().cloned().collect();
                for g in o.iter_mut() {
                    if k < g.len() {
                        g[k] = match el {
                            El::Inc => g[k] + F::one(),
                            El::Zero => F::zero(),
                            El::Neg => -g[k],
                            El::Other => flat[(*seed % flat.len() as u64) as usize],
                            _ => F::rand(&mut SimRng::new(*seed)),
                        };
                        break;
                    }
                    k -= g.len();
                }
            }
            SMut::Drop { group } => {
                o[(*group % n) as usize].pop()?;
            }
            SMut::Extra { group, v } => o[(*group % n) as usize].push(match v {
                0 => F::zero(),
                1 => F::one(),
                _ => F::from(12345u64),
            }),
            SMut::Swap { pick } => {
                let g = (*pick % n) as usize;
                if o[g].len() < 2 {
                    return None;
                }
                let l = o[g].len();
                let a = (*pick / 7) as usize % l;
                let b = (a + 1 + (*pick / 31) as usize % (l - 1)) % l;
                o[g].swap(a, b);
            }
            SMut::SwapGroups { a, b } => {
                if n < 2 {
                    return None;
                }
                let i = (*a % n) as usize;
                let j = (i + 1 + (*b % (n - 1)) as usize) % n as usize;
                o.swap(i, j);
            }
            SMut::Empty { group } => o[(*group % n) as usize].clear(),
            SMut::DropGroup { group } => {
                if shape_fixed {
                    return None;
                }
                o.remove((*group % n) as usize);
            }
            SMut::DupGroup { group } => {
                if shape_fixed {
                    return None;
                }
                let g = o[(*group % n) as usize].clone();
                o.push(g);
            }
        }
        if o == s {
            None
        } else {
            Some(o)
        }
    }
}
