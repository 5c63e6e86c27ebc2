//! The simulated deployment of one proof system: a setup authority, provers (honest and not),
//! verifier nodes with a disk, and a network that delays, drops, duplicates, reorders, replays,
//! misdirects and rewrites messages.  A plan is data; its execution is a pure function of it.
use crate::mutate::{self, Mut, SMut, El, ELS};
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub seed: u64,
    pub threads: usize,
    pub swap: u64,
    pub steal: u64,
}
impl Sched {
    pub fn gen(r: &mut Rg) -> Option<Sched> {
        if r.pct(25) {
            return None;
        }
        Some(Sched { seed: r.seed(), threads: *r.pick(&[1, 2, 3, 4, 5, 8, 16, 64]), swap: *r.pick(&[0, 30, 50, 100]), steal: *r.pick(&[0, 40, 100]) })
    }
    pub fn install(s: &Option<Sched>) {
        match s {
            Some(s) => rayon_core::sim_install(s.seed, s.threads, s.swap, s.steal),
            None => rayon_core::sim_install(0, 1, 0, 0),
        }
    }
    pub fn remove(st: &mut Stats) {
        let s = rayon_core::sim_remove();
        st.add("sched.joins", s.joins);
        st.add("sched.branch_swaps", s.swapped);
        st.add("sched.steals", s.migrated);
        if s.joins > 0 {
            st.set("task_schedules", s.digest);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CtxP {
    pub sh: Value,
    pub var: Option<u64>,
    pub srs: u64,
    pub wseed: u64,
    pub rng: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Byz {
    Honest,
    /// proves with an assignment changed arbitrarily
    Lie(u64),
    /// sends another value for one of its messages and carries on consistently
    Subst { pick: u64, el: El, seed: u64 },
    /// proves about its own context in the name of another
    As(usize),
    /// a cheat specific to the scheme
    Cheat { kind: u64, seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Net {
    Clean,
    Dup,
    Wire(Mut),
    /// several changes, one after the other
    Wires(Vec<Mut>),
    Stmt(SMut),
    StmtOf(u64),
    Ctx(usize),
    Both(Mut, SMut),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OpK {
    Setup { ctx: usize },
    Key { ctx: usize, to: usize },
    Prove { id: u64, ctx: usize, w: u64, rng: u64, byz: Byz },
    Deliver { id: u64, to: usize, net: Net },
    Crash { node: usize, keep: u64 },
    Restart { node: usize },
    ReloadPk { ctx: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub at: u64,
    pub op: OpK,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub scheme: String,
    pub sched: Option<Sched>,
    pub ctxs: Vec<CtxP>,
    pub ops: Vec<Op>,
}

/// How plans are drawn.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// judge acceptance and rejection
    Sound,
    /// judge only that verifiers stay alive
    Crash,
}

pub fn gen_plan<S: Scheme>(r: &mut Rg, t: Tier, mode: Mode) -> Plan {
    let big = t == Tier::Thorough || r.pct(15);
    let sh = serde_json::to_value(S::shape(r, big)).unwrap();
    let srs = r.range(7, 8) as u64;
    let mut ctxs = vec![CtxP { sh: sh.clone(), var: None, srs, wseed: r.seed(), rng: r.seed() }];
    if mode == Mode::Sound && r.pct(45) {
        let c0 = ctxs[0].clone();
        ctxs.push(match r.below(5) {
            // other constraints, otherwise identical, and even the same randomness
            0 => CtxP { var: Some(r.seed()), ..c0 },
            1 => CtxP { var: Some(r.seed()), rng: r.seed(), ..c0 },
            // the same circuit set up again
            2 => CtxP { rng: r.seed(), ..c0 },
            3 => CtxP { rng: r.seed(), srs: 15 - srs, ..c0 },
            _ => CtxP { sh: serde_json::to_value(S::shape(r, big)).unwrap(), var: None, srs, wseed: r.seed(), rng: r.seed() },
        });
    }
    let nodes = 2;
    let mut ops = vec![];
    let mut id = 0;
    for c in 0..ctxs.len() {
        let t0 = r.below(40) as u64;
        ops.push(Op { at: t0, op: OpK::Setup { ctx: c } });
        for to in 0..nodes {
            // keys may come late, twice, or not before the faults stop
            if r.pct(85) {
                ops.push(Op { at: t0 + 1 + r.below(400) as u64, op: OpK::Key { ctx: c, to } });
            }
            if r.pct(10) {
                ops.push(Op { at: t0 + 1 + r.below(900) as u64, op: OpK::Key { ctx: c, to } });
            }
        }
        if r.pct(12) {
            ops.push(Op { at: t0 + 20 + r.below(200) as u64, op: OpK::ReloadPk { ctx: c } });
        }
        let n = if mode == Mode::Crash { 1 } else { r.range(1, 2) };
        for _ in 0..n {
            let at = t0 + 10 + r.below(300) as u64;
            let byz = match r.below(100) {
                0..=49 => Byz::Honest,
                50..=64 => Byz::Lie(r.seed()),
                65..=79 => Byz::Subst { pick: r.seed(), el: *r.pick(&ELS), seed: r.seed() },
                80..=87 => Byz::As(r.below(ctxs.len())),
                _ => Byz::Cheat { kind: r.seed(), seed: r.seed() },
            };
            let byz = if mode == Mode::Crash { Byz::Honest } else { byz };
            ops.push(Op { at, op: OpK::Prove { id, ctx: c, w: r.seed(), rng: r.seed(), byz: byz.clone() } });
            let nd = match (&byz, mode) {
                (_, Mode::Crash) => r.range(6, 14),
                (Byz::Honest, _) => r.range(3, 9),
                _ => r.range(1, 3),
            };
            for j in 0..nd {
                let net = if mode == Mode::Crash {
                    match r.below(10) {
                        0..=4 => Net::Wire(Mut::gen_hostile(r)),
                        5 | 6 => Net::Wires((0..r.range(2, 3)).map(|_| Mut::gen_hostile(r)).collect()),
                        7 | 8 => Net::Stmt(SMut::gen(r)),
                        _ => Net::Both(Mut::gen_hostile(r), SMut::gen(r)),
                    }
                } else if byz != Byz::Honest && j == 0 {
                    Net::Clean
                } else {
                    match r.below(100) {
                        0..=9 => Net::Clean,
                        10..=14 => Net::Dup,
                        15..=55 => Net::Wire(Mut::gen(r)),
                        56..=59 => Net::Wires((0..r.range(2, 3)).map(|_| Mut::gen(r)).collect()),
                        60..=84 => Net::Stmt(SMut::gen(r)),
                        85..=89 => Net::StmtOf(r.below(4) as u64),
                        90..=97 => Net::Ctx(r.below(ctxs.len())),
                        _ => Net::Wire(Mut::gen_hostile(r)),
                    }
                };
                let delay = if r.pct(20) { r.below(5000) } else { r.below(200) } as u64;
                ops.push(Op { at: at + 1 + delay, op: OpK::Deliver { id, to: r.below(nodes), net } });
            }
            id += 1;
        }
    }
    if r.pct(35) {
        let node = r.below(nodes);
        let at = r.below(900) as u64;
        ops.push(Op { at, op: OpK::Crash { node, keep: *r.pick(&[0, 25, 50, 75, 99, 100]) } });
        if r.pct(80) {
            ops.push(Op { at: at + 1 + r.below(500) as u64, op: OpK::Restart { node } });
        }
    }
    ops.sort_by_key(|o| o.at);
    Plan { scheme: S::NAME.into(), sched: Sched::gen(r), ctxs, ops }
}

struct Rec<S: Scheme> {
    ctx: usize,
    stmt: Stmt<S::F>,
    wit: S::Wit,
    honest_wit: S::Wit,
    bytes: Vec<u8>,
    canon: Vec<u8>,
    lens: Vec<usize>,
    honest: bool,
    how: String,
}
struct Node<S: Scheme> {
    up: bool,
    vk: BTreeMap<usize, Rc<S::Vk>>,
    disk: BTreeMap<usize, (Vec<u8>, bool)>, // bytes, synced
    pending: Vec<(u64, Net)>,
}
struct World<'a, S: Scheme> {
    plan: &'a Plan,
    mode: Mode,
    insts: Vec<S::Inst>,
    ctx: Vec<Option<Ctx<S>>>,
    vkb: Vec<Vec<u8>>,
    /// challenges a verifier draws for each proof as sent
    pins: std::cell::RefCell<std::collections::HashMap<u64, Vec<Vec<u8>>>>,
    ident: Vec<Vec<u8>>,
    recs: BTreeMap<u64, Rec<S>>,
    nodes: Vec<Node<S>>,
}

fn short(e: &str) -> String {
    // panic text without line numbers
    if let Some(rest) = e.strip_prefix("panic ") {
        return format!("panic in {}", panic_site(rest));
    }
    e.chars().take(60).collect()
}

impl<'a, S: Scheme> World<'a, S> {
    fn setup(&mut self, c: usize, st: &mut Stats) -> Result<(), Viol> {
        if self.ctx[c].is_some() {
            return Ok(());
        }
        let p = &self.plan.ctxs[c];
        let mut rng = SimRng::new(p.rng);
        match setup_caught::<S>(&self.insts[c], p.srs, p.wseed, &mut rng) {
            Ok(x) => {
                self.vkb[c] = S::vk_bytes(&x.vk);
                self.ident[c] = S::ident(&self.insts[c], &x.vk);
                st.ev(format!("setup ctx{} key {:016x}", c, fnv(&self.vkb[c])));
                st.inc("event.setup");
                if let Some(f) = &x.first {
                    let w = S::wit(&self.insts[c], p.wseed);
                    let holds = S::holds(&self.insts[c], &w);
                    let (canon, lens) = match catch(|| S::canon(f)) {
                        Ok(Ok(x)) => x,
                        e => return viol(format!("{}: honest proof does not decode", S::NAME), format!("{:?}", e)),
                    };
                    self.recs.insert(
                        1000 + c as u64,
                        Rec { ctx: c, stmt: S::stmt(&self.insts[c], &w), wit: w.clone(), honest_wit: w, bytes: f.clone(), canon, lens, honest: holds, how: "setup-made".into() },
                    );
                }
                self.ctx[c] = Some(x);
                Ok(())
            }
            Err(e) => {
                if self.mode == Mode::Crash {
                    st.ev(format!("setup ctx{} failed {}", c, e));
                    return Ok(());
                }
                viol(format!("{}: setup failed: {}", S::NAME, short(&e)), format!("setup of a valid circuit failed: {}", e))
            }
        }
    }
    fn key_arrives(&mut self, c: usize, n: usize, st: &mut Stats) -> Result<(), Viol> {
        if self.ctx[c].is_none() || !self.nodes[n].up {
            return Ok(());
        }
        st.inc("event.key-delivered");
        match catch(|| S::vk_load(&self.insts[c], &self.vkb[c])) {
            Ok(Ok(vk)) => {
                let node = &mut self.nodes[n];
                node.vk.insert(c, Rc::new(vk));
                node.disk.insert(c, (self.vkb[c].clone(), false));
                st.ev(format!("key ctx{} at node{}", c, n));
            }
            e => {
                let e = match e {
                    Ok(Err(e)) => e,
                    Err(e) => format!("panic {}", e),
                    _ => unreachable!(),
                };
                return viol(format!("{}: stored key does not load: {}", S::NAME, short(&e)), format!("verification key written by the library does not load: {}", e));
            }
        }
        let pend = std::mem::take(&mut self.nodes[n].pending);
        for (id, net) in pend {
            self.deliver(id, n, &net, st)?;
        }
        Ok(())
    }
    fn prove(&mut self, id: u64, c: usize, w: u64, rng: u64, byz: &Byz, st: &mut Stats) -> Result<(), Viol> {
        let inst = self.insts[c].clone();
        let cx = match &self.ctx[c] {
            Some(x) => x,
            None => return Ok(()),
        };
        let hw = S::wit(&inst, w);
        let mut wit = hw.clone();
        let mut honest = S::holds(&inst, &hw);
        let truth = honest;
        let mut how = String::from(if honest { "honest" } else { "unsatisfiable-variant" });
        let run = |w: &S::Wit| prove_caught::<S>(&cx.pk, &inst, w, &mut SimRng::new(rng));
        let res: Result<Vec<u8>, String> = match byz {
            Byz::Honest => run(&wit),
            Byz::Lie(s) => {
                wit = S::lie(&inst, &hw, *s);
                honest = S::holds(&inst, &wit);
                how = "violating-assignment".into();
                st.inc(if honest { "event.lie-still-satisfying" } else { "fault.byzantine-violating-assignment" });
                run(&wit)
            }
            Byz::As(o) => {
                how = "in-the-name-of-another-context".into();
                honest = truth && self.ident.get(*o) == Some(&self.ident[c]);
                let o = match self.ctx.get(*o) {
                    Some(Some(x)) if *o != c => x,
                    _ => return Ok(()),
                };
                st.inc("fault.byzantine-other-context");
                match catch(|| S::prove_as(&cx.pk, &inst, &wit, &o.pk, &mut SimRng::new(rng))) {
                    Ok(Some(r)) => r,
                    Ok(None) => return Ok(()),
                    Err(e) => Err(e),
                }
            }
            Byz::Subst { pick, el, seed } => {
                how = format!("message-substituted-{:?}", el);
                honest = false;
                let b = match run(&wit) {
                    Ok(b) => b,
                    Err(_) => return Ok(()),
                };
                let (canon, lens) = match S::canon(&b) {
                    Ok(x) => x,
                    Err(_) => return Ok(()),
                };
                let slots = mutate::layout(S::CURVE, &canon, &lens);
                let foreign = if *el == El::Foreign { prove_caught::<S>(&cx.pk, &inst, &wit, &mut SimRng::new(rng ^ 1)).ok() } else { None };
                let (i, new) = match mutate::pick_elem(&slots, &canon, *pick, *el, *seed, foreign.as_deref()) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let s = slots[i];
                let old = canon[s.off..s.off + s.len].to_vec();
                if new == old || S::ignored(&lens).contains(&i) || S::redundant(&canon).contains(&i) {
                    return Ok(());
                }
                let (a, z) = match (mutate::wire_to_transcript(s.kind, &old), mutate::wire_to_transcript(s.kind, &new)) {
                    (Some(a), Some(z)) => (a, z),
                    _ => return Ok(()),
                };
                merlin::tap::substitute(&[(a, z)]);
                let r2 = run(&wit);
                let hits: u64 = merlin::tap::substituted().iter().sum();
                st.ev(format!("id{} substitutes slot {} of {} ({:?})", id, i, slots.len(), s.kind));
                st.inc("fault.byzantine-consistent-substitution");
                st.add("probe.substitutions-absorbed", hits);
                match r2 {
                    Ok(mut b2) if b2.len() == canon.len() => {
                        b2[s.off..s.off + s.len].copy_from_slice(&new);
                        Ok(b2)
                    }
                    Ok(_) => return Ok(()),
                    Err(e) => Err(e),
                }
            }
            Byz::Cheat { kind, seed } => match catch(|| S::cheat(&cx.pk, &inst, &hw, *kind, *seed, &mut SimRng::new(rng))) {
                Ok(Some((name, w2, b))) => {
                    how = format!("cheat-{}", name);
                    honest = false;
                    wit = w2;
                    st.inc(&format!("fault.byzantine-{}", how));
                    b
                }
                Ok(None) => return Ok(()),
                Err(e) => Err(e),
            },
        };
        match res {
            Ok(b) => {
                st.inc("event.prove");
                let (canon, lens) = match catch(|| S::canon(&b)) {
                    Ok(Ok(x)) => x,
                    e => {
                        if honest && self.mode == Mode::Sound {
                            return viol(format!("{}: honest proof does not decode", S::NAME), format!("{:?}", e));
                        }
                        (b.clone(), vec![])
                    }
                };
                if honest && canon != b && self.mode == Mode::Sound {
                    return viol(format!("{}: honest proof re-encodes differently", S::NAME), "decode then encode is not the identity");
                }
                st.ev(format!("prove id{} ctx{} {} -> {:016x}", id, c, how, fnv(&b)));
                let stmt = S::stmt(&inst, &wit);
                self.recs.insert(id, Rec { ctx: c, stmt, wit, honest_wit: hw, bytes: b, canon, lens, honest, how });
            }
            Err(e) => {
                st.ev(format!("prove id{} ctx{} {} failed {}", id, c, how, e));
                if honest && self.mode == Mode::Sound {
                    return viol(format!("{}: honest prover failed: {}", S::NAME, short(&e)), format!("prover failed on a satisfying assignment: {}", e));
                }
                st.inc("event.dishonest-prover-got-no-proof");
            }
        }
        Ok(())
    }
    fn deliver(&mut self, id: u64, n: usize, net: &Net, st: &mut Stats) -> Result<(), Viol> {
        let rec = match self.recs.get(&id) {
            Some(r) => r,
            None => return Ok(()),
        };
        if !self.nodes[n].up {
            st.inc("fault.delivered-to-crashed-node-lost");
            return Ok(());
        }
        let mut c = rec.ctx;
        let mut stmt = rec.stmt.clone();
        let mut bytes = rec.bytes.clone();
        if let Net::Ctx(o) = net {
            c = *o;
            if c >= self.insts.len() {
                return Ok(());
            }
        }
        let vk = match self.nodes[n].vk.get(&c) {
            Some(v) => v.clone(),
            None => {
                if self.ctx[c].is_some() {
                    st.inc("fault.proof-before-key");
                    self.nodes[n].pending.push((id, net.clone()));
                }
                return Ok(());
            }
        };
        let mut kind = "clean".to_string();
        let wire = |m: &Mut| -> Option<Vec<u8>> {
            let foreign = self.recs.iter().find(|(k, r)| **k != id && r.ctx == rec.ctx && r.bytes.len() == rec.bytes.len()).map(|x| &x.1.canon[..]);
            let foreign2;
            let foreign = match (foreign, m) {
                (None, Mut::Elem { el: El::Foreign, seed, .. }) => {
                    let cx = self.ctx[rec.ctx].as_ref()?;
                    foreign2 = prove_caught::<S>(&cx.pk, &self.insts[rec.ctx], &rec.honest_wit, &mut SimRng::new(*seed)).ok();
                    foreign2.as_deref()
                }
                (f, _) => f,
            };
            let ok = |b: &[u8]| matches!(catch(|| S::canon(b)), Ok(Ok(_)));
            mutate::apply(m, S::CURVE, &rec.canon, &rec.lens, foreign, &self.vkb[rec.ctx], &ok)
        };
        match net {
            Net::Wires(ms) => {
                let ok = |b: &[u8]| matches!(catch(|| S::canon(b)), Ok(Ok(_)));
                let mut names = vec![];
                for m in ms {
                    let (cb, cl) = match catch(|| S::canon(&bytes)) {
                        Ok(Ok(x)) => x,
                        _ => break,
                    };
                    let m = match m {
                        Mut::Elem { el: El::Foreign, pick, seed } => Mut::Elem { pick: *pick, el: El::Random, seed: *seed },
                        m => m.clone(),
                    };
                    if let Some(b) = mutate::apply(&m, S::CURVE, &cb, &cl, None, &self.vkb[rec.ctx], &ok) {
                        bytes = b;
                        names.push(m.kind());
                    }
                }
                if names.is_empty() {
                    return Ok(());
                }
                for n in &names {
                    st.inc(&format!("fault.{}", n));
                }
                kind = names.join("+");
            }
            Net::Clean => {}
            Net::Dup => {}
            Net::Ctx(_) => kind = "misdirected".into(),
            Net::Wire(m) => match wire(m) {
                Some(b) => {
                    bytes = b;
                    kind = m.kind().into();
                }
                None => return Ok(()),
            },
            Net::Stmt(m) => match m.apply(&stmt, S::FIXED_GROUPS) {
                Some(s) => {
                    stmt = s;
                    kind = m.kind().into();
                }
                None => return Ok(()),
            },
            Net::Both(m, sm) => {
                kind = format!("{}+{}", m.kind(), sm.kind());
                if let Some(b) = wire(m) {
                    bytes = b;
                }
                if let Some(s) = sm.apply(&stmt, S::FIXED_GROUPS) {
                    stmt = s;
                }
            }
            Net::StmtOf(o) => match self.recs.get(o) {
                Some(r) if r.stmt != stmt => {
                    stmt = r.stmt.clone();
                    kind = "statement-of-another-proof".into();
                }
                _ => return Ok(()),
            },
        }
        if kind != "clean" && !matches!(net, Net::Wires(_)) {
            for k in kind.split('+') {
                st.inc(&format!("fault.{}", k));
            }
        }
        let times = if *net == Net::Dup {
            st.inc("fault.duplicated");
            2
        } else {
            1
        };
        for _ in 0..times {
            let v = verify_caught::<S>(&vk, &stmt, &bytes);
            st.inc(&format!("verdict.{}", v.tag()));
            st.inc("event.verify");
            st.ev(format!("node{} id{} ({}) ctx{} {} -> {}", n, id, rec.how, c, kind, v.tag()));
            self.judge(rec, c, &stmt, &bytes, &v, &kind, net, st)?;
        }
        if self.mode == Mode::Crash && kind != "clean" && S::HASHES {
            // a sender that carried on consistently after the change: the verifier draws the
            // challenges of the unchanged proof and gets as far as their checks take it
            let pins = self.pins.borrow().get(&id).cloned();
            let pins = match pins {
                Some(p) => p,
                None => {
                    merlin::tap::start();
                    verify_caught::<S>(&vk, &rec.stmt, &rec.bytes);
                    let p: Vec<Vec<u8>> = merlin::tap::take()
                        .into_iter()
                        .filter_map(|e| match e {
                            merlin::tap::Event::Challenge { value, .. } => Some(value),
                            _ => None,
                        })
                        .collect();
                    self.pins.borrow_mut().insert(id, p.clone());
                    p
                }
            };
            merlin::tap::oracle(Some(merlin::tap::Oracle::Pin(pins)));
            let v = verify_caught::<S>(&vk, &stmt, &bytes);
            merlin::tap::oracle(None);
            st.inc("fault.challenges-chosen");
            st.ev(format!("  with the sender's challenges -> {}", v.tag()));
            self.judge(rec, c, &stmt, &bytes, &v, &kind, net, st)?;
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, rec: &Rec<S>, c: usize, stmt: &Stmt<S::F>, bytes: &[u8], v: &Verdict, kind: &str, net: &Net, st: &mut Stats) -> Result<(), Viol> {
        if self.mode == Mode::Crash {
            st.inc("judged");
            if let Verdict::Panic(p) = v {
                return viol(
                    format!("{}: verifier panics at {}", S::NAME, panic_site(p)),
                    format!("verifying a message changed by {} panics: {}", kind, p),
                );
            }
            return Ok(());
        }
        let same_ctx = c == rec.ctx || self.ident[c] == self.ident[rec.ctx];
        let canon = match catch(|| S::canon(bytes)) {
            Ok(Ok((b, _))) => Some(b),
            _ => None,
        };
        // exactly an honest proof of this statement?
        let honest = canon.as_ref().is_some_and(|cb| {
            self.recs.values().any(|r| {
                r.honest && r.stmt == *stmt && r.canon == *cb && (r.ctx == c || self.ident[r.ctx] == self.ident[c])
            })
        });
        if honest {
            st.inc("judged");
            st.inc("event.honest-judged");
            if canon.as_deref() != Some(bytes) {
                return Ok(()); // same proof, unusual encoding: may be refused
            }
            if !v.accepted() {
                return viol(
                    format!("{}: honest proof rejected ({})", S::NAME, v.tag()),
                    format!("an honest proof of a true statement was not accepted: {:?} (sent {}, {})", v, kind, rec.how),
                );
            }
            return Ok(());
        }
        st.inc("judged");
        st.inc("event.dishonest-judged");
        if !v.accepted() {
            return Ok(());
        }
        // accepted, though not an honest proof of this statement in this context
        let truth = |w: &S::Wit| S::with_stmt(&self.insts[c], w, stmt).map(|w| S::holds(&self.insts[c], &w)).unwrap_or(false);
        if same_ctx && kind.contains("all-identity") && truth(&S::zero_hidden(&self.insts[c], &rec.honest_wit)) {
            // the honest proof for the all-zero witness with zero blinding, of a true statement
            st.inc("event.zero-witness-proof");
            return Ok(());
        }
        let slot = match net {
            Net::Wire(_) => self.slot_of(rec, bytes), // a single changed slot
            _ => None,
        };
        if let Some(i) = slot {
            if S::ignored(&rec.lens).contains(&i) {
                st.inc("event.ignored-slot");
                return Ok(());
            }
        }
        let what = if !same_ctx {
            "under another key or circuit".to_string()
        } else if rec.honest || kind != "clean" {
            kind.to_string()
        } else {
            rec.how.clone()
        };
        viol(
            format!("{}: accepted {}", S::NAME, what),
            format!("the verifier accepted a proof that is not an honest proof of the statement shown: prover {}, sent {}, slot {:?}", rec.how, kind, slot),
        )
    }
    fn slot_of(&self, rec: &Rec<S>, b: &[u8]) -> Option<usize> {
        if b.len() != rec.canon.len() {
            return None;
        }
        let at = (0..b.len()).find(|i| b[*i] != rec.canon[*i])?;
        let mut off = 0;
        for (i, l) in rec.lens.iter().enumerate() {
            off += l;
            if at < off {
                return Some(i);
            }
        }
        None
    }
    fn crash(&mut self, n: usize, keep: u64, st: &mut Stats) {
        let node = &mut self.nodes[n];
        if !node.up {
            return;
        }
        node.up = false;
        node.vk.clear();
        node.pending.clear();
        st.inc("fault.node-crash");
        // the last written, not yet synced file may be torn
        if let Some((_, f)) = node.disk.iter_mut().next_back() {
            if !f.1 {
                let k = f.0.len() * keep as usize / 100;
                if k < f.0.len() {
                    f.0.truncate(k);
                    st.inc("fault.torn-key-file");
                }
            }
        }
        st.ev(format!("crash node{}", n));
    }
    fn restart(&mut self, n: usize, st: &mut Stats) -> Result<(), Viol> {
        if self.nodes[n].up {
            return Ok(());
        }
        self.nodes[n].up = true;
        st.inc("event.node-restart");
        let files: Vec<(usize, Vec<u8>)> = self.nodes[n].disk.iter().map(|(k, v)| (*k, v.0.clone())).collect();
        for (c, b) in files {
            let whole = b == self.vkb[c];
            match catch(|| S::vk_load(&self.insts[c], &b)) {
                Ok(Ok(vk)) => {
                    if !whole {
                        if self.mode == Mode::Crash {
                            continue;
                        }
                        return viol(format!("{}: torn key file loads", S::NAME), format!("{} of {} bytes of a verification key load without error", b.len(), self.vkb[c].len()));
                    }
                    self.nodes[n].vk.insert(c, Rc::new(vk));
                    if let Some(f) = self.nodes[n].disk.get_mut(&c) {
                        f.1 = true;
                    }
                }
                Ok(Err(_)) | Err(_) if !whole => {
                    st.inc("event.torn-key-refused");
                    self.nodes[n].disk.remove(&c);
                }
                e => {
                    if self.mode == Mode::Crash {
                        continue;
                    }
                    return viol(format!("{}: stored key does not load", S::NAME), format!("{:?}", e.map(|x| x.map(|_| ()))));
                }
            }
        }
        st.ev(format!("restart node{}", n));
        Ok(())
    }
}

pub fn exec<S: Scheme>(plan: &Plan, mode: Mode, st: &mut Stats) -> Result<(), Viol> {
    let mut insts = vec![];
    for c in &plan.ctxs {
        let sh: S::Sh = serde_json::from_value(c.sh.clone()).expect("shape");
        let i = S::inst(&sh);
        insts.push(match c.var {
            Some(s) => S::variant(&i, s),
            None => i,
        });
    }
    let n = insts.len();
    let mut w: World<S> = World {
        plan,
        mode,
        ctx: (0..n).map(|_| None).collect(),
        vkb: vec![vec![]; n],
        pins: Default::default(),
        ident: vec![vec![]; n],
        insts,
        recs: Default::default(),
        nodes: (0..2).map(|_| Node { up: true, vk: Default::default(), disk: Default::default(), pending: vec![] }).collect(),
    };
    Sched::install(&plan.sched);
    let mut inter = 0u64;
    let r = (|| {
        let mut now = 0;
        for o in &plan.ops {
            now = o.at.max(now);
            let tag = match &o.op {
                OpK::Setup { ctx } => format!("S{}", ctx),
                OpK::Key { ctx, to } => format!("K{}{}", ctx, to),
                OpK::Prove { id, ctx, .. } => format!("P{}{}", id, ctx),
                OpK::Deliver { id, to, net } => format!("D{}{}{}", id, to, serde_json::to_string(net).unwrap()),
                OpK::Crash { node, .. } => format!("C{}", node),
                OpK::Restart { node } => format!("R{}", node),
                OpK::ReloadPk { ctx } => format!("L{}", ctx),
            };
            inter = mix2(inter, hstr(&tag));
            match &o.op {
                OpK::Setup { ctx } => w.setup(*ctx, st)?,
                OpK::Key { ctx, to } => w.key_arrives(*ctx, *to, st)?,
                OpK::Prove { id, ctx, w: ws, rng, byz } => w.prove(*id, *ctx, *ws, *rng, byz, st)?,
                OpK::Deliver { id, to, net } => w.deliver(*id, *to, net, st)?,
                OpK::Crash { node, keep } => w.crash(*node, *keep, st),
                OpK::Restart { node } => w.restart(*node, st)?,
                OpK::ReloadPk { ctx } => {
                    if let Some(x) = &mut w.ctx[*ctx] {
                        if let Some(b) = S::pk_bytes(&x.pk) {
                            match catch(|| S::pk_load(&w.insts[*ctx], &b)) {
                                Ok(Some(Ok(pk))) => {
                                    x.pk = pk;
                                    st.inc("event.prover-key-reloaded");
                                    st.ev("prover key reloaded");
                                }
                                Ok(None) => {}
                                Ok(Some(Err(e))) if mode == Mode::Sound => {
                                    return viol(format!("{}: stored proving key does not load", S::NAME), e)
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
        st.add("sim_ms", now);
        // faults stop: every node comes back, keys arrive, every honest proof is accepted
        for k in 0..w.nodes.len() {
            w.restart(k, st)?;
            for c in 0..n {
                if w.ctx[c].is_some() && (!w.nodes[k].vk.contains_key(&c)) {
                    w.key_arrives(c, k, st)?;
                }
            }
        }
        if mode == Mode::Sound {
            let ids: Vec<u64> = w.recs.keys().cloned().collect();
            for id in ids {
                if w.recs[&id].honest {
                    let to = id as usize % w.nodes.len();
                    w.deliver(id, to, &Net::Clean, st)?;
                }
            }
        }
        Ok(())
    })();
    Sched::remove(st);
    st.set("interleavings", inter);
    r
}

pub fn shrink<S: Scheme>(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let n = p.ops.len();
    // halves, then single operations
    for (a, b) in [(0, n / 2), (n / 2, n), (n / 4, n / 2), (n / 2, 3 * n / 4)] {
        if b > a && b - a < n && b - a > 1 {
            let mut q = p.clone();
            q.ops.drain(a..b);
            v.push(q);
        }
    }
    for i in (0..n).rev() {
        let mut q = p.clone();
        q.ops.remove(i);
        v.push(q);
    }
    if p.sched.is_some() {
        let mut q = p.clone();
        q.sched = None;
        v.push(q);
    }
    if p.ctxs.len() > 1 && !p.ops.iter().any(|o| matches!(&o.op, OpK::Setup{ctx} if *ctx==p.ctxs.len()-1)) {
        let mut q = p.clone();
        q.ctxs.pop();
        v.push(q);
    }
    if let Ok(sh) = serde_json::from_value::<S::Sh>(p.ctxs[0].sh.clone()) {
        for s in S::shrink(&sh) {
            let s = serde_json::to_value(s).unwrap();
            let mut q = p.clone();
            for c in q.ctxs.iter_mut() {
                if c.sh == p.ctxs[0].sh {
                    c.sh = s.clone();
                }
            }
            v.push(q);
        }
    }
    v
}

pub type PlanFn = fn(&mut Rg, Tier, Mode) -> Plan;
pub type ExecFn = fn(&Plan, Mode, &mut Stats) -> Result<(), Viol>;
pub type ShrinkFn = fn(&Plan) -> Vec<Plan>;
pub struct Sys {
    pub name: &'static str,
    pub weight: u64,
    pub plan: PlanFn,
    pub exec: ExecFn,
    pub shrink: ShrinkFn,
}
pub fn sys<S: Scheme>(weight: u64) -> Sys {
    Sys { name: S::NAME, weight, plan: gen_plan::<S>, exec: exec::<S>, shrink: shrink::<S> }
}

/// A check that explores deployments of one or more proof systems.
pub struct WorldCheck {
    pub id: &'static str,
    pub mode: Mode,
    pub systems: fn() -> Vec<Sys>,
    pub runs: (u64, u64),
    pub real: &'static str,
}
fn pick_sys(v: &[Sys], r: &mut Rg) -> usize {
    let t: u64 = v.iter().map(|s| s.weight).sum();
    let mut x = r.below(t as usize) as u64;
    for (i, s) in v.iter().enumerate() {
        if x < s.weight {
            return i;
        }
        x -= s.weight;
    }
    0
}
impl WorldCheck {
    fn find(&self, name: &str) -> Sys {
        (self.systems)().into_iter().find(|s| s.name == name).expect("system")
    }
}
impl Check for WorldCheck {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.runs.0
        } else {
            self.runs.1
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let v = (self.systems)();
        let s = &v[pick_sys(&v, &mut r)];
        serde_json::to_value((s.plan)(&mut r, t, self.mode)).unwrap()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = self.find(&p.scheme);
        st.inc(&format!("sys.{}", s.name));
        (s.exec)(&p, self.mode, st)
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = self.find(&p.scheme);
        (s.shrink)(&p).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }
    fn rule(&self) -> String {
        "one run = one generated circuit (and possibly a second context), keys, provers, deliveries and faults, executed from its seed; \
         non-trivial = at least one verification was judged against the reference; distinct = different execution traces (every event, key and proof digest)"
            .into()
    }
    fn components(&self) -> Value {
        json!({"real": self.real, "stub": "network, verifier disk and the rayon thread pool are the simulator's; the random stream is the simulator's generator; merlin and the PLONK digest are the real algorithms with a recorder"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "collision and forgery probabilities over the 255-bit fields are treated as zero".into(),
            "circuits are bounded in size (see DESIGN.md)".into(),
        ]
    }
}

/// a static check as a part of another
pub struct Wc(pub &'static WorldCheck);
impl Check for Wc {
    fn id(&self) -> &'static str {
        self.0.id
    }
    fn runs(&self, t: Tier) -> u64 {
        self.0.runs(t)
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        self.0.plan(seed, k, t)
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        self.0.exec(plan, st)
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        self.0.shrink(plan)
    }
    fn rule(&self) -> String {
        self.0.rule()
    }
    fn components(&self) -> Value {
        self.0.components()
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
}
