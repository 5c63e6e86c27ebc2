//! Generated R1CS circuits: a small program over variables that any backend can synthesise,
//! any number of assignments computed from seeds, and a reference evaluator.
use crate::util::*;
use ark_ff::PrimeField;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

/// Coefficient or value: small ints or a seeded full-size element.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum K {
    I(i64),
    R(u64),
}
impl K {
    pub fn f<F: PrimeField>(&self) -> F {
        match self {
            K::I(i) => {
                if *i >= 0 {
                    F::from(*i as u64)
                } else {
                    -F::from((-*i) as u64)
                }
            }
            K::R(s) => F::rand(&mut SimRng::new(*s)),
        }
    }
    pub fn gen(r: &mut Rg) -> K {
        match r.below(10) {
            0 => K::I(0),
            1..=3 => K::I(1),
            4 => K::I(-1),
            5 | 6 => K::I(r.below(7) as i64 - 3),
            7 => K::I((r.u64() & 0xffff_ffff) as i64),
            _ => K::R(r.seed()),
        }
    }
}

/// One step of building a linear combination. Variable index usize::MAX-like `ONE` is the constant.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(usize),
    Sub(usize),
    AddK(K, usize),
    SubK(K, usize),
    Neg,
    Mul(K),
    /// lc = lc + other / lc - other / lc + k*other / lc - k*other (variant, by-reference form)
    AddLc(Vec<Op>, u8),
    SubLc(Vec<Op>, u8),
    AddKLc(K, Vec<Op>, u8),
    SubKLc(K, Vec<Op>, u8),
    Double,
    Set(usize),
    SetK(K, usize),
}
pub const ONE: usize = 1 << 40;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Def {
    /// independent value: 0 field element, 1 bit, 2 zero-biased small value
    Free(u8),
    /// value forced by constraint: (A*B - C') / coeff
    Solved(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Var {
    pub public: bool,
    pub def: Def,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Con {
    pub a: Vec<Op>,
    pub b: Vec<Op>,
    pub c: Vec<Op>,
}
/// Statements in program order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum St {
    Alloc(usize),
    Enforce(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Circ {
    pub vars: Vec<Var>,
    pub cons: Vec<Con>,
    pub prog: Vec<St>,
    pub ns: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub seed: u64,
    pub max_pub: usize,
    pub max_free: usize,
    pub cons: usize,
    /// % of linear-combination steps that are exotic (repeat, cancel, nested)
    pub exotic: u64,
    /// longest combination
    pub lc: usize,
}
impl Shape {
    pub fn gen(r: &mut Rg) -> Shape {
        let cons = match r.below(10) {
            0 => 1,
            1 => 2,
            2..=5 => r.range(2, 6),
            6..=7 => *r.pick(&[3, 4, 7, 8, 15, 16]),
            8 => r.range(6, 14),
            _ => r.range(12, 24),
        };
        Shape {
            seed: r.seed(),
            max_pub: match r.below(6) {
                0 => 0,
                1 => 1,
                2 | 3 => r.range(1, 4),
                _ => r.range(2, 9),
            },
            max_free: r.range(0, 6),
            cons,
            exotic: *r.pick(&[0, 0, 30, 60]),
            lc: *r.pick(&[1, 2, 3, 4, 9]),
        }
    }
}

fn gen_lc(r: &mut Rg, avail: &[usize], sh: &Shape, depth: u32) -> Vec<Op> {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        _ => r.range(1, sh.lc.max(1)),
    };
    let var = |r: &mut Rg| -> usize {
        if avail.is_empty() || r.pct(15) {
            ONE
        } else if r.pct(50) {
            avail[avail.len() - 1 - r.below(avail.len().min(4))]
        } else {
            *r.pick(avail)
        }
    };
    let mut ops = vec![];
    let mut last = ONE;
    for _ in 0..n {
        if r.pct(sh.exotic) {
            let v = if r.pct(50) { last } else { var(r) };
            let op = match r.below(if depth == 0 { 12 } else { 7 }) {
                0 => Op::Add(v),
                1 => Op::Sub(v),
                2 => Op::AddK(K::gen(r), v),
                3 => Op::SubK(K::gen(r), v),
                4 => Op::Neg,
                5 => Op::Mul(K::gen(r)),
                6 => Op::Double,
                7 => Op::AddLc(gen_lc(r, avail, sh, depth + 1), r.below(4) as u8),
                8 => Op::SubLc(gen_lc(r, avail, sh, depth + 1), r.below(4) as u8),
                9 => Op::AddKLc(K::gen(r), gen_lc(r, avail, sh, depth + 1), r.below(4) as u8),
                10 => Op::SubKLc(K::gen(r), gen_lc(r, avail, sh, depth + 1), r.below(4) as u8),
                _ => {
                    if r.pct(50) {
                        Op::Set(v)
                    } else {
                        Op::SetK(K::gen(r), v)
                    }
                }
            };
            last = v;
            ops.push(op);
        } else {
            let v = var(r);
            last = v;
            ops.push(match r.below(4) {
                0 | 1 => Op::Add(v),
                2 => Op::AddK(K::gen(r), v),
                _ => Op::SubK(K::gen(r), v),
            });
        }
    }
    ops
}

impl Circ {
    pub fn gen(sh: &Shape) -> Circ {
        let mut r = Rg::new(sh.seed);
        let mut c = Circ { vars: vec![], cons: vec![], prog: vec![], ns: r.pct(30) };
        let mut avail: Vec<usize> = vec![];
        let n_pub = sh.max_pub;
        let mut pubs_left = n_pub;
        let free = sh.max_free;
        // a few free variables first
        for i in 0..free {
            let public = pubs_left > 0 && r.pct(35);
            if public {
                pubs_left -= 1;
            }
            let kind = match r.below(5) {
                0 => 1,
                1 => 2,
                _ => 0,
            };
            c.vars.push(Var { public, def: Def::Free(kind) });
            c.prog.push(St::Alloc(i));
            avail.push(i);
        }
        for k in 0..sh.cons {
            let a = gen_lc(&mut r, &avail, sh, 0);
            let b = gen_lc(&mut r, &avail, sh, 0);
            match r.below(10) {
                0 if !c.cons.is_empty() => {
                    // duplicate of an earlier constraint
                    let j = r.below(c.cons.len());
                    let d = c.cons[j].clone();
                    c.cons.push(d);
                    c.prog.push(St::Enforce(k));
                }
                1 if avail.iter().any(|v| c.vars[*v].def == Def::Free(1)) => {
                    // bit constraint v*(v-1)=0
                    let bits: Vec<usize> =
                        avail.iter().cloned().filter(|v| c.vars[*v].def == Def::Free(1)).collect();
                    let v = *r.pick(&bits);
                    c.cons.push(Con {
                        a: vec![Op::Add(v)],
                        b: vec![Op::Add(v), Op::Sub(ONE)],
                        c: vec![],
                    });
                    c.prog.push(St::Enforce(k));
                }
                _ => {
                    // A*B = C' + coeff*new
                    let mut cc = if r.pct(50) { vec![] } else { gen_lc(&mut r, &avail, sh, 0) };
                    let nv = c.vars.len();
                    let public = pubs_left > 0 && (r.pct(40) || pubs_left + k + 1 >= sh.cons + 1);
                    if public {
                        pubs_left -= 1;
                    }
                    c.vars.push(Var { public, def: Def::Solved(k) });
                    cc.push(match r.below(4) {
                        0 => Op::SubK(K::I(1), nv),
                        1 => Op::AddK(K::R(r.seed()), nv),
                        2 => Op::AddK(K::I(2), nv),
                        _ => Op::Add(nv),
                    });
                    c.cons.push(Con { a, b, c: cc });
                    if r.pct(80) {
                        c.prog.push(St::Alloc(nv));
                        c.prog.push(St::Enforce(k));
                    } else {
                        // allocate early: just before the previous statement if that keeps order of vars
                        c.prog.push(St::Alloc(nv));
                        c.prog.push(St::Enforce(k));
                    }
                    avail.push(nv);
                }
            }
        }
        // sometimes move all enforcement to the end (variable ids stay in allocation order)
        if r.pct(30) {
            let (al, en): (Vec<St>, Vec<St>) = c.prog.into_iter().partition(|s| matches!(s, St::Alloc(_)));
            c.prog = al;
            c.prog.extend(en);
        }
        c
    }
    pub fn n_pub(&self) -> usize {
        self.vars.iter().filter(|v| v.public).count()
    }
    pub fn n_aux(&self) -> usize {
        self.vars.iter().filter(|v| !v.public).count()
    }
    /// A circuit with the same size and allocation pattern but other constraints.
    pub fn variant(&self, seed: u64) -> Circ {
        let mut r = Rg::new(seed);
        let mut c = self.clone();
        let k = r.below(c.cons.len().max(1));
        if let Some(con) = c.cons.get_mut(k) {
            match r.below(3) {
                0 => con.a.push(Op::AddK(K::I(3), ONE)),
                1 => con.b.push(Op::AddK(K::I(5), ONE)),
                _ => con.a.insert(0, Op::AddK(K::I(2), ONE)),
            }
        }
        c
    }
    /// Public variables that occur in at least one constraint with a nonzero coefficient.
    pub fn used<F: PrimeField>(&self) -> Vec<bool> {
        let mut u = vec![false; self.vars.len()];
        for c in &self.cons {
            for lc in [&c.a, &c.b, &c.c] {
                for (v, k) in ref_lc::<F>(lc) {
                    if v != ONE && !k.is_zero() {
                        u[v] = true;
                    }
                }
            }
        }
        u
    }
}

/// Reference linear-combination semantics: a plain map.
pub fn ref_lc<F: PrimeField>(ops: &[Op]) -> Vec<(usize, F)> {
    let mut m: std::collections::BTreeMap<usize, F> = Default::default();
    fn addm<F: PrimeField>(m: &mut std::collections::BTreeMap<usize, F>, o: &[(usize, F)], k: F) {
        for (v, c) in o {
            *m.entry(*v).or_insert_with(F::zero) += *c * k;
        }
    }
    for op in ops {
        match op {
            Op::Add(v) => addm(&mut m, &[(*v, F::one())], F::one()),
            Op::Sub(v) => addm(&mut m, &[(*v, F::one())], -F::one()),
            Op::AddK(k, v) => addm(&mut m, &[(*v, k.f())], F::one()),
            Op::SubK(k, v) => addm(&mut m, &[(*v, k.f())], -F::one()),
            Op::Neg => m.values_mut().for_each(|x| *x = -*x),
            Op::Mul(k) => {
                let k: F = k.f();
                m.values_mut().for_each(|x| *x *= k)
            }
            Op::Double => m.values_mut().for_each(|x| *x = *x + *x),
            Op::AddLc(o, _) => addm(&mut m, &ref_lc::<F>(o), F::one()),
            Op::SubLc(o, _) => addm(&mut m, &ref_lc::<F>(o), -F::one()),
            Op::AddKLc(k, o, _) => addm(&mut m, &ref_lc::<F>(o), k.f()),
            Op::SubKLc(k, o, _) => addm(&mut m, &ref_lc::<F>(o), -k.f::<F>()),
            Op::Set(v) => {
                m.clear();
                m.insert(*v, F::one());
            }
            Op::SetK(k, v) => {
                m.clear();
                m.insert(*v, k.f());
            }
        }
    }
    m.into_iter().collect()
}
pub fn eval_lc<F: PrimeField>(ops: &[Op], vals: &[F]) -> F {
    ref_lc::<F>(ops).iter().fold(F::zero(), |s, (v, k)| s + *k * if *v == ONE { F::one() } else { vals[*v] })
}

/// The code under test: build the same combination with the library's operators.
pub fn lib_lc<F: PrimeField>(
    mut lc: LinearCombination<F>,
    ops: &[Op],
    vars: &[Option<Variable>],
    one: Variable,
) -> LinearCombination<F> {
    let get = |v: usize| if v == ONE { one } else { vars[v].expect("variable used before allocation") };
    for op in ops {
        lc = match op {
            Op::Add(v) => lc + get(*v),
            Op::Sub(v) => lc - get(*v),
            Op::AddK(k, v) => lc + (k.f::<F>(), get(*v)),
            Op::SubK(k, v) => lc - (k.f::<F>(), get(*v)),
            Op::Neg => -lc,
            Op::Mul(k) => lc * k.f::<F>(),
            Op::Double => {
                lc.double_in_place();
                lc
            }
            Op::AddLc(o, f) => {
                let o = lib_lc(LinearCombination::zero(), o, vars, one);
                match f % 4 {
                    0 => &lc + &o,
                    1 => &lc + o,
                    2 => lc + &o,
                    _ => lc + o,
                }
            }
            Op::SubLc(o, f) => {
                let o = lib_lc(LinearCombination::zero(), o, vars, one);
                match f % 4 {
                    0 => &lc - &o,
                    1 => &lc - o,
                    2 => lc - &o,
                    _ => lc - o,
                }
            }
            Op::AddKLc(k, o, f) => {
                let o = lib_lc(LinearCombination::zero(), o, vars, one);
                let k = k.f::<F>();
                match f % 4 {
                    0 => &lc + (k, &o),
                    1 => &lc + (k, o),
                    2 => lc + (k, &o),
                    _ => lc + (k, o),
                }
            }
            Op::SubKLc(k, o, f) => {
                let o = lib_lc(LinearCombination::zero(), o, vars, one);
                let k = k.f::<F>();
                match f % 4 {
                    0 => &lc - (k, &o),
                    1 => &lc - (k, o),
                    2 => lc - (k, &o),
                    _ => lc - (k, o),
                }
            }
            Op::Set(v) => LinearCombination::from(get(*v)),
            Op::SetK(k, v) => LinearCombination::from((k.f::<F>(), get(*v))),
        };
    }
    lc
}

#[derive(Clone, Debug)]
pub struct Asg<F> {
    pub vals: Vec<F>,
}
impl Circ {
    /// Compute a satisfying assignment from a seed.
    pub fn assign<F: PrimeField>(&self, seed: u64) -> Asg<F> {
        let mut r = Rg::new(seed);
        let mut vals = vec![F::zero(); self.vars.len()];
        let style = r.below(4);
        for (i, v) in self.vars.iter().enumerate() {
            vals[i] = match &v.def {
                Def::Free(1) => F::from(r.below(2) as u64),
                Def::Free(2) => F::from([0u64, 0, 1, 2][r.below(4)]),
                Def::Free(_) => match (style, r.below(4)) {
                    (0, _) => F::from(r.below(3) as u64),
                    (1, 0) => F::zero(),
                    (1, 1) => -F::one(),
                    _ => F::rand(&mut SimRng::new(r.u64())),
                },
                Def::Solved(k) => {
                    let c = &self.cons[*k];
                    let a = eval_lc(&c.a, &vals);
                    let b = eval_lc(&c.b, &vals);
                    let cl = ref_lc::<F>(&c.c);
                    let mut rest = F::zero();
                    let mut co = F::zero();
                    for (v, kk) in &cl {
                        if *v == i {
                            co = *kk
                        } else {
                            rest += *kk * if *v == ONE { F::one() } else { vals[*v] };
                        }
                    }
                    (a * b - rest) * co.inverse().unwrap_or_else(F::zero)
                }
            };
        }
        Asg { vals }
    }
    /// Indices of violated constraints under the reference semantics.
    pub fn violated<F: PrimeField>(&self, a: &Asg<F>) -> Vec<usize> {
        (0..self.cons.len())
            .filter(|k| {
                let c = &self.cons[*k];
                eval_lc(&c.a, &a.vals) * eval_lc(&c.b, &a.vals) != eval_lc(&c.c, &a.vals)
            })
            .collect()
    }
    pub fn publics<F: PrimeField>(&self, a: &Asg<F>) -> Vec<F> {
        // in allocation order
        self.prog
            .iter()
            .filter_map(|s| match s {
                St::Alloc(v) if self.vars[*v].public => Some(a.vals[*v]),
                _ => None,
            })
            .collect()
    }
}

/// Injected failure inside synthesis.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum AllocFault {
    Missing,
    DivZero,
    Unsat,
}
impl AllocFault {
    pub fn err(&self) -> SynthesisError {
        match self {
            AllocFault::Missing => SynthesisError::AssignmentMissing,
            AllocFault::DivZero => SynthesisError::DivisionByZero,
            AllocFault::Unsat => SynthesisError::Unsatisfiable,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            AllocFault::Missing => "AssignmentMissing",
            AllocFault::DivZero => "DivisionByZero",
            AllocFault::Unsat => "Unsatisfiable",
        }
    }
}

/// One synthesis of a circuit: values (or none), and optionally a fault at the k-th allocation.
#[derive(Clone)]
pub struct Synth<'a, F: PrimeField> {
    pub c: &'a Circ,
    pub a: Option<&'a Asg<F>>,
    pub fault: Option<(usize, AllocFault)>,
    /// synthesis itself returns an error before this statement (or at its end)
    pub give_up: Option<(usize, AllocFault)>,
    /// set when a value closure was evaluated / when the fault fired
    pub probe: Rc<RefCell<Probe>>,
}
#[derive(Default, Debug, Clone)]
pub struct Probe {
    pub closures: usize,
    pub fired: bool,
    pub annotations: usize,
}
impl<'a, F: PrimeField> Synth<'a, F> {
    pub fn honest(c: &'a Circ, a: &'a Asg<F>) -> Self {
        Synth { c, a: Some(a), fault: None, give_up: None, probe: Default::default() }
    }
    pub fn blank(c: &'a Circ) -> Self {
        Synth { c, a: None, fault: None, give_up: None, probe: Default::default() }
    }
}
impl<'a, F: PrimeField> Synth<'a, F> {
    fn stmt<CS: ConstraintSystem<F>>(
        &self,
        cs: &mut CS,
        s: &St,
        n: usize,
        vars: &mut Vec<Option<Variable>>,
    ) -> Result<(), SynthesisError> {
        match s {
            St::Alloc(v) => {
                let probe = self.probe.clone();
                let val = self.a.map(|a| a.vals[*v]);
                let fault = self.fault;
                let f = move || {
                    probe.borrow_mut().closures += 1;
                    if let Some((k, e)) = fault {
                        if k == n {
                            probe.borrow_mut().fired = true;
                            return Err(e.err());
                        }
                    }
                    val.ok_or(SynthesisError::AssignmentMissing)
                };
                let var = if self.c.vars[*v].public {
                    cs.alloc_input(|| format!("in{}", v), f)?
                } else {
                    cs.alloc(|| format!("aux{}", v), f)?
                };
                vars[*v] = Some(var);
            }
            St::Enforce(k) => {
                let con = &self.c.cons[*k];
                let one = CS::one();
                let vs = &*vars;
                cs.enforce(
                    || format!("c{}", k),
                    |lc| lib_lc(lc, &con.a, vs, one),
                    |lc| lib_lc(lc, &con.b, vs, one),
                    |lc| lib_lc(lc, &con.c, vs, one),
                );
            }
        }
        Ok(())
    }
}
impl<'a, F: PrimeField> ConstraintSynthesizer<F> for Synth<'a, F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vars: Vec<Option<Variable>> = vec![None; self.c.vars.len()];
        let mut n = 0;
        for (i, s) in self.c.prog.iter().enumerate() {
            if let Some((k, e)) = self.give_up {
                if k == i {
                    return Err(e.err());
                }
            }
            if self.c.ns && i % 3 == 1 {
                let mut ns = cs.ns(|| format!("ns{}", i));
                self.stmt(&mut ns, s, n, &mut vars)?;
            } else {
                self.stmt(cs, s, n, &mut vars)?;
            }
            if matches!(s, St::Alloc(_)) {
                n += 1;
            }
        }
        if let Some((k, e)) = self.give_up {
            if k >= self.c.prog.len() {
                return Err(e.err());
            }
        }
        Ok(())
    }
}
