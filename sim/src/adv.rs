//! A recording constraint system and Byzantine provers for it.
//!
//! One honest synthesis gives the constraints and the honest wires.  A dishonest
//! prover then fixes what the statement fixes (the pinned wires) and searches,
//! seeded, for any other assignment of the remaining wires that satisfies every
//! constraint; whatever it finds is handed to the gadget's post-condition.
use crate::util::*;
use ark_ff::{BigInteger, FpParameters, PrimeField, SquareRootField};
use std::collections::BTreeMap;
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub type Lc<F> = Vec<(u32, F)>;

thread_local! {
    /// the allocation to fail in the next synthesis, and whether it was reached
    pub static FAIL: std::cell::Cell<Option<(u64, bool)>> = const { std::cell::Cell::new(None) };
}

pub struct Rec<F: PrimeField + SquareRootField> {
    pub cons: Vec<[Lc<F>; 3]>,
    pub val: Vec<Option<F>>,
    ins: Vec<u32>,
    aux: Vec<u32>,
    /// setup mode: closures are never called
    pub blind: bool,
    /// allocation that fails (counting every allocation)
    pub fail_at: Option<u64>,
    pub allocs: u64,
    pub ns_depth: i64,
    /// allocations of the harness itself are neither counted nor failed
    pub mute: bool,
}
impl<F: PrimeField + SquareRootField> Rec<F> {
    pub fn new(blind: bool) -> Self {
        Rec { cons: vec![], val: vec![Some(F::one())], ins: vec![0], aux: vec![], blind, fail_at: FAIL.with(|f| f.get()).map(|x| x.0), allocs: 0, ns_depth: 0, mute: false }
    }
    pub fn new_free() -> Self {
        Self::new(false)
    }
    pub fn wire(&self, v: Variable) -> u32 {
        match v.get_unchecked() {
            Index::Input(i) => self.ins[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    fn lc(&self, l: LinearCombination<F>) -> Lc<F> {
        let mut m: BTreeMap<u32, F> = BTreeMap::new();
        for (v, c) in l.0.iter() {
            *m.entry(self.wire(*v)).or_insert_with(F::zero) += c;
        }
        m.into_iter().filter(|x| !x.1.is_zero()).collect()
    }
    pub fn inputs(&self) -> Vec<u32> {
        self.ins.clone()
    }
    fn add(&mut self, f: impl FnOnce() -> Result<F, SynthesisError>) -> Result<u32, SynthesisError> {
        if !self.mute {
            self.allocs += 1;
            if self.fail_at == Some(self.allocs) {
                FAIL.with(|f| f.set(f.get().map(|x| (x.0, true))));
                return Err(SynthesisError::DivisionByZero);
            }
        }
        let v = if self.blind { None } else { Some(f()?) };
        self.val.push(v);
        Ok(self.val.len() as u32 - 1)
    }
    pub fn satisfied(&self) -> Option<usize> {
        let v: Vec<F> = self.val.iter().map(|x| x.unwrap()).collect();
        self.cons.iter().position(|c| !holds(c, &v))
    }
    pub fn shape(&self) -> u64 {
        let mut h = 0x7368_6170u64;
        let mut buf = vec![];
        for c in &self.cons {
            for l in c {
                h = mix2(h, 0x4c43 + l.len() as u64);
                for (w, f) in l {
                    buf.clear();
                    let _ = f.write(&mut buf);
                    h = mix2(h, mix2(*w as u64, fnv(&buf)));
                }
            }
        }
        mix2(mix2(h, fnv(&self.ins.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>())), self.aux.len() as u64)
    }
}
impl<F: PrimeField + SquareRootField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let w = self.add(f)?;
        self.aux.push(w);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let w = self.add(f)?;
        self.ins.push(w);
        Ok(Variable::new_unchecked(Index::Input(self.ins.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let z = LinearCombination::zero;
        let c = [self.lc(a(z())), self.lc(b(z())), self.lc(c(z()))];
        self.cons.push(c);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.ns_depth += 1;
    }
    fn pop_namespace(&mut self) {
        self.ns_depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn num_constraints(&self) -> usize {
        self.cons.len()
    }
}

pub fn eval<F: PrimeField + SquareRootField>(l: &Lc<F>, v: &[F]) -> F {
    l.iter().fold(F::zero(), |s, (w, c)| s + *c * v[*w as usize])
}
pub fn holds<F: PrimeField + SquareRootField>(c: &[Lc<F>; 3], v: &[F]) -> bool {
    eval(&c[0], v) * eval(&c[1], v) == eval(&c[2], v)
}

pub struct Sys<F: PrimeField + SquareRootField> {
    pub cons: Vec<[Lc<F>; 3]>,
    pub honest: Vec<F>,
    pub adj: Vec<Vec<u32>>,
}
impl<F: PrimeField + SquareRootField> Sys<F> {
    pub fn new(r: &Rec<F>) -> Self {
        let n = r.val.len();
        let mut adj = vec![vec![]; n];
        for (i, c) in r.cons.iter().enumerate() {
            let mut ws: Vec<u32> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| *w != 0).collect();
            ws.sort_unstable();
            ws.dedup();
            for w in ws {
                adj[w as usize].push(i as u32);
            }
        }
        Sys { cons: r.cons.clone(), honest: r.val.iter().map(|x| x.unwrap()).collect(), adj }
    }
}

fn part<F: PrimeField + SquareRootField>(l: &Lc<F>, known: &[Option<F>]) -> (F, Vec<(u32, F)>) {
    let mut k = F::zero();
    let mut u = vec![];
    for (w, c) in l {
        match known[*w as usize] {
            Some(v) => k += *c * v,
            None => u.push((*w, *c)),
        }
    }
    (k, u)
}
fn combine<F: PrimeField + SquareRootField>(x: &[(u32, F)], cx: F, y: &[(u32, F)], cy: F) -> Vec<(u32, F)> {
    let mut m: BTreeMap<u32, F> = BTreeMap::new();
    for (w, c) in x {
        *m.entry(*w).or_insert_with(F::zero) += *c * cx;
    }
    for (w, c) in y {
        *m.entry(*w).or_insert_with(F::zero) += *c * cy;
    }
    m.into_iter().filter(|e| !e.1.is_zero()).collect()
}
fn log2<F: PrimeField>(x: F) -> Option<usize> {
    let r = x.into_repr();
    let n = r.num_bits() as usize;
    let mut one = F::BigInt::from(1u64);
    if n == 0 {
        return None;
    }
    one.muln(n as u32 - 1);
    if one == r {
        Some(n - 1)
    } else {
        None
    }
}

/// how the solver resolves a wire nothing determines
#[derive(Clone, Copy, Debug)]
pub enum Policy {
    /// honest everywhere except at the given guess
    DeviateAt(u32),
    /// every guess deviates with this percentage
    Random(u64),
}

fn odd_value<F: PrimeField + SquareRootField>(rg: &mut Rg, honest: F) -> F {
    match rg.below(7) {
        0 => F::zero(),
        1 => F::one(),
        2 => F::one() - honest,
        3 => honest + F::one(),
        4 => -honest,
        5 => F::from(2u64),
        _ => F::from(rg.u64()) * F::from(rg.u64()),
    }
}

/// Propagation solver.  None: this line of assignments cannot satisfy the constraints.
pub fn solve<F: PrimeField + SquareRootField>(s: &Sys<F>, pins: &BTreeMap<u32, F>, rg: &mut Rg, pol: Policy, guesses: &mut u64) -> Option<Vec<F>> {
    let n = s.honest.len();
    let mut known: Vec<Option<F>> = vec![None; n];
    let mut dom: Vec<Option<Vec<F>>> = vec![None; n];
    known[0] = Some(F::one());
    for (w, v) in pins {
        known[*w as usize] = Some(*v);
    }
    let mut queue: std::collections::VecDeque<u32> = (0..s.cons.len() as u32).collect();
    let mut inq = vec![true; s.cons.len()];
    let mut low = 0usize;
    let descending = rg.pct(15);
    let anywhere = rg.pct(25);
    let mut set = |w: u32, v: F, known: &mut Vec<Option<F>>, dom: &Vec<Option<Vec<F>>>, queue: &mut std::collections::VecDeque<u32>, inq: &mut Vec<bool>| -> bool {
        if let Some(d) = &dom[w as usize] {
            if !d.contains(&v) {
                return false;
            }
        }
        known[w as usize] = Some(v);
        for c in &s.adj[w as usize] {
            if !inq[*c as usize] {
                inq[*c as usize] = true;
                queue.push_back(*c);
            }
        }
        true
    };
    loop {
        while let Some(ci) = queue.pop_front() {
            inq[ci as usize] = false;
            let c = &s.cons[ci as usize];
            let (a0, au) = part(&c[0], &known);
            let (b0, bu) = part(&c[1], &known);
            let (c0, cu) = part(&c[2], &known);
            // linear form sum = rhs, if it is one
            let lin = if au.is_empty() && bu.is_empty() {
                Some((cu.clone(), a0 * b0 - c0))
            } else if bu.is_empty() {
                Some((combine(&cu, F::one(), &au, -b0), a0 * b0 - c0))
            } else if au.is_empty() {
                Some((combine(&cu, F::one(), &bu, -a0), a0 * b0 - c0))
            } else {
                None
            };
            match lin {
                Some((l, k)) => match l.len() {
                    0 => {
                        if !k.is_zero() {
                            return None;
                        }
                    }
                    1 => {
                        let v = k * l[0].1.inverse().unwrap();
                        if !set(l[0].0, v, &mut known, &dom, &mut queue, &mut inq) {
                            return None;
                        }
                    }
                    _ => {
                        // binary decomposition
                        let bool_dom = |w: u32| matches!(&dom[w as usize], Some(d) if d.len()==2 && d.contains(&F::zero()) && d.contains(&F::one()));
                        if l.iter().all(|e| bool_dom(e.0)) {
                            let mut done = false;
                            for base in [F::one(), -F::one(), l[0].1] {
                                let inv = base.inverse().unwrap();
                                let mut ex: Vec<(usize, u32)> = vec![];
                                let ok = l.iter().all(|(w, c)| match log2(*c * inv) {
                                    Some(e) => {
                                        ex.push((e, *w));
                                        true
                                    }
                                    None => false,
                                });
                                if !ok {
                                    continue;
                                }
                                ex.sort_unstable();
                                if ex.windows(2).any(|p| p[0].0 == p[1].0) {
                                    break;
                                }
                                // the value, or (when the sum may wrap) value + p
                                let mut val = (k * inv).into_repr();
                                let top = ex.last().unwrap().0;
                                if top + 1 >= F::Params::MODULUS_BITS as usize && rg.pct(50) {
                                    let p = F::Params::MODULUS;
                                    let carry = val.add_nocarry(&p);
                                    if carry {
                                        return None;
                                    }
                                }
                                let mut used = vec![];
                                for (e, w) in &ex {
                                    used.push(*e);
                                    let v = if val.get_bit(*e) { F::one() } else { F::zero() };
                                    if !set(*w, v, &mut known, &dom, &mut queue, &mut inq) {
                                        return None;
                                    }
                                }
                                done = true;
                                break;
                            }
                            let _ = done;
                        }
                    }
                },
                None => {
                    // a*b = c with unknowns on both sides: only the one-wire quadratic is used
                    if au.len() == 1 && bu.len() == 1 && au[0].0 == bu[0].0 && (cu.is_empty() || (cu.len() == 1 && cu[0].0 == au[0].0)) {
                        let w = au[0].0;
                        let cc = if cu.is_empty() { F::zero() } else { cu[0].1 };
                        let q2 = au[0].1 * bu[0].1;
                        let q1 = a0 * bu[0].1 + b0 * au[0].1 - cc;
                        let q0 = a0 * b0 - c0;
                        let disc = q1 * q1 - F::from(4u64) * q2 * q0;
                        let roots: Vec<F> = match disc.sqrt() {
                            None => vec![],
                            Some(r) => {
                                let i = (q2 + q2).inverse().unwrap();
                                let mut v = vec![(r - q1) * i, (-r - q1) * i];
                                v.dedup();
                                v
                            }
                        };
                        let d: Vec<F> = match &dom[w as usize] {
                            None => roots,
                            Some(d) => d.iter().filter(|x| roots.contains(x)).cloned().collect(),
                        };
                        let fresh = dom[w as usize].is_none();
                        match d.len() {
                            0 => return None,
                            1 => {
                                let v = d[0];
                                if !set(w, v, &mut known, &dom, &mut queue, &mut inq) {
                                    return None;
                                }
                            }
                            _ => {
                                dom[w as usize] = Some(d);
                                if fresh {
                                    for c in &s.adj[w as usize] {
                                        if !inq[*c as usize] {
                                            inq[*c as usize] = true;
                                            queue.push_back(*c);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        while low < n && known[low].is_some() {
            low += 1;
        }
        if low == n {
            return Some(known.into_iter().map(|x| x.unwrap()).collect());
        }
        // choose a wire nothing determines
        let w = if descending {
            (0..n).rev().find(|w| known[*w].is_none()).unwrap()
        } else if anywhere && rg.pct(30) {
            let k = rg.below(n);
            (0..n).map(|i| (i + k) % n).find(|w| known[*w].is_none()).unwrap()
        } else {
            low
        } as u32;
        let h = s.honest[w as usize];
        let dev = match pol {
            Policy::DeviateAt(k) => *guesses == k as u64,
            Policy::Random(p) => rg.pct(p),
        };
        *guesses += 1;
        let v = match &dom[w as usize] {
            Some(d) => {
                if !dev && d.contains(&h) {
                    h
                } else {
                    let o: Vec<F> = d.iter().filter(|x| **x != h).cloned().collect();
                    if o.is_empty() {
                        h
                    } else {
                        *rg.pick(&o)
                    }
                }
            }
            None => {
                if dev {
                    odd_value(rg, h)
                } else {
                    h
                }
            }
        };
        if !set(w, v, &mut known, &dom, &mut queue, &mut inq) {
            return None;
        }
    }
}

/// value of wire w that repairs constraint c, all other wires as they are
fn repair<F: PrimeField + SquareRootField>(c: &[Lc<F>; 3], v: &[F], w: u32) -> Option<F> {
    let co = |l: &Lc<F>| l.iter().find(|x| x.0 == w).map(|x| x.1).unwrap_or_else(F::zero);
    let (a1, b1, c1) = (co(&c[0]), co(&c[1]), co(&c[2]));
    let x = v[w as usize];
    let (a0, b0, c0) = (eval(&c[0], v) - a1 * x, eval(&c[1], v) - b1 * x, eval(&c[2], v) - c1 * x);
    let (q2, q1, q0) = (a1 * b1, a0 * b1 + b0 * a1 - c1, a0 * b0 - c0);
    if !q2.is_zero() {
        let r = (q1 * q1 - F::from(4u64) * q2 * q0).sqrt()?;
        return Some((r - q1) * (q2 + q2).inverse()?);
    }
    Some(-q0 * q1.inverse()?)
}

/// Starting from `v` with `start` changed, mend violated constraints one wire at a time.
pub fn local<F: PrimeField + SquareRootField>(s: &Sys<F>, mut v: Vec<F>, pinned: &BTreeMap<u32, F>, start: Vec<(u32, F)>, rg: &mut Rg, steps: usize) -> Option<Vec<F>> {
    let mut touched: std::collections::BTreeSet<u32> = Default::default();
    let mut bad: std::collections::BTreeSet<u32> = Default::default();
    for (w, x) in start {
        v[w as usize] = x;
        touched.insert(w);
        bad.extend(s.adj[w as usize].iter().filter(|c| !holds(&s.cons[**c as usize], &v)));
    }
    local_bad(s, &mut v, pinned, touched, bad, rg, steps).then_some(v)
}
fn local_bad<F: PrimeField + SquareRootField>(
    s: &Sys<F>,
    v: &mut Vec<F>,
    pinned: &BTreeMap<u32, F>,
    mut touched: std::collections::BTreeSet<u32>,
    mut bad: std::collections::BTreeSet<u32>,
    rg: &mut Rg,
    steps: usize,
) -> bool {
    for _ in 0..steps {
        let ci = match bad.iter().next() {
            None => return true,
            Some(c) => *c,
        };
        let c = &s.cons[ci as usize];
        let mut ws: Vec<u32> =
            c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| *w != 0 && !pinned.contains_key(w) && !touched.contains(w)).collect();
        ws.sort_unstable();
        ws.dedup();
        if ws.is_empty() {
            return false;
        }
        // mostly the youngest wire: the one the rest of the circuit computes from
        let w = if rg.pct(70) { *ws.last().unwrap() } else { *rg.pick(&ws) };
        match repair(c, v, w) {
            Some(x) => v[w as usize] = x,
            None => return false,
        }
        touched.insert(w);
        for k in &s.adj[w as usize] {
            if holds(&s.cons[*k as usize], v) {
                bad.remove(k);
            } else {
                bad.insert(*k);
            }
        }
        if bad.len() > 400 {
            return false;
        }
    }
    bad.is_empty()
}

/// wires below `cut` from one honest run, the rest from another; pins of the first
pub fn splice<F: PrimeField + SquareRootField>(s: &Sys<F>, other: &[F], pins: &BTreeMap<u32, F>, cut: u32, rg: &mut Rg) -> Option<Vec<F>> {
    let mut v: Vec<F> = (0..s.honest.len()).map(|w| if (w as u32) < cut { s.honest[w] } else { other[w] }).collect();
    for (w, x) in pins {
        v[*w as usize] = *x;
    }
    v[0] = F::one();
    let bad: std::collections::BTreeSet<u32> = (0..s.cons.len() as u32).filter(|c| !holds(&s.cons[*c as usize], &v)).collect();
    if bad.is_empty() {
        return Some(v);
    }
    if bad.len() > 300 {
        return None;
    }
    local_bad(s, &mut v, pins, Default::default(), bad, rg, 600).then_some(v)
}

/// two boolean-looking wires of one constraint whose changes cancel
pub fn pair_flip<F: PrimeField + SquareRootField>(s: &Sys<F>, pins: &BTreeMap<u32, F>, rg: &mut Rg) -> Option<Vec<F>> {
    let big: Vec<usize> = (0..s.cons.len()).filter(|i| s.cons[*i].iter().map(|l| l.len()).sum::<usize>() > 4).collect();
    if big.is_empty() {
        return None;
    }
    let c = &s.cons[*rg.pick(&big)];
    let net = |w: u32| {
        let f = |l: &Lc<F>| l.iter().find(|x| x.0 == w).map(|x| x.1).unwrap_or_else(F::zero);
        f(&c[0]) * eval(&c[1], &s.honest) + f(&c[1]) * eval(&c[0], &s.honest) - f(&c[2])
    };
    let bit = |w: u32| s.honest[w as usize].is_zero() || s.honest[w as usize].is_one();
    let mut ws: Vec<u32> = c.iter().flat_map(|l| l.iter().map(|x| x.0)).filter(|w| *w != 0 && bit(*w) && !pins.contains_key(w)).collect();
    ws.sort_unstable();
    ws.dedup();
    let mut by: BTreeMap<Vec<u8>, Vec<u32>> = BTreeMap::new();
    for w in ws {
        let d = if s.honest[w as usize].is_zero() { net(w) } else { -net(w) };
        let mut k = vec![];
        let _ = d.write(&mut k);
        by.entry(k).or_default().push(w);
    }
    let keys: Vec<Vec<u8>> = by.keys().cloned().collect();
    if keys.is_empty() {
        return None;
    }
    let key = rg.pick(&keys).clone();
    let d = F::read(&key[..]).ok()?;
    let mut mk = vec![];
    let _ = (-d).write(&mut mk);
    let w1 = *rg.pick(&by[&key]);
    let mut start = vec![(w1, F::one() - s.honest[w1 as usize])];
    if let Some(o) = by.get(&mk) {
        let w2 = *rg.pick(o);
        start.push((w2, F::one() - s.honest[w2 as usize]));
    }
    local(s, s.honest.clone(), pins, start, rg, 300)
}
