//! C13: the random stream is the simulator's, and so are the verifier's challenges.
//!
//! With every challenge pinned, a proof is a function of the witness and the stream.  Replaying the
//! stream must replay the bytes.  Replaying the stream with another witness shows which components
//! carry the witness; other streams show which of them are masked and by what: a component that
//! carries the witness but not the stream is bare, two that move together under every stream but
//! not with the witness share one mask, and a word of the stream that moves nothing blinds nothing.
use crate::mutate::{self, El, Kind, Slot};
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::schemes::*;
use crate::util::*;
use ark_ff::PrimeField;
use ark_serialize::CanonicalDeserialize;
use merlin::tap::{self, Event, Oracle};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

macro_rules! say {
    ($a:expr, $b:expr $(,)?) => {
        if std::env::var("DST_SURVEY").is_ok() {
            eprint!("{}", format!("SURVEY {} :: {}\n", $a, $b));
        } else {
            return viol($a, $b);
        }
    };
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    scheme: String,
    sh: Value,
    seed: u64,
    w: u64,
    /// other witnesses
    others: Vec<u64>,
    /// other streams
    streams: Vec<u64>,
    /// words of the stream to flip
    words: Vec<u64>,
}
pub struct ESys {
    name: &'static str,
    weight: u64,
    plan: fn(&mut Rg, Tier) -> Plan,
    exec: fn(&Plan, &mut Stats) -> Result<(), Viol>,
    shrink: fn(&Plan) -> Vec<Plan>,
}
pub fn esys<S: Scheme>(weight: u64) -> ESys {
    ESys { name: S::NAME, weight, plan: plan::<S>, exec: exec::<S>, shrink: shrink::<S> }
}
fn plan<S: Scheme>(r: &mut Rg, t: Tier) -> Plan {
    let big = t == Tier::Thorough && r.pct(25);
    let sh = S::shape(r, big);
    let n = if t == Tier::Thorough { 12 } else { 6 };
    Plan {
        scheme: S::NAME.into(),
        sh: serde_json::to_value(&sh).unwrap(),
        seed: r.seed(),
        w: r.seed(),
        others: (0..3).map(|_| r.seed()).collect(),
        streams: (0..r.range(4, n)).map(|_| r.seed()).collect(),
        words: (0..r.range(2, n)).map(|_| r.seed()).collect(),
    }
}
fn shrink<S: Scheme>(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    if !p.words.is_empty() {
        v.push(Plan { words: vec![], ..p.clone() });
        for w in &p.words {
            v.push(Plan { words: vec![*w], ..p.clone() });
        }
    }
    for i in 0..p.others.len() {
        let mut q = p.clone();
        q.others.remove(i);
        v.push(q);
    }
    if p.streams.len() > 3 {
        v.push(Plan { streams: p.streams[..3].to_vec(), ..p.clone() });
    }
    if let Ok(sh) = serde_json::from_value::<S::Sh>(p.sh.clone()) {
        for s in S::shrink(&sh) {
            v.push(Plan { sh: serde_json::to_value(s).unwrap(), ..p.clone() });
        }
    }
    let same = serde_json::to_string(p).unwrap();
    v.retain(|q| serde_json::to_string(q).unwrap() != same);
    v
}
type Enc = (Vec<u8>, Vec<usize>);
/// a proof under pinned challenges
fn pinned<S: Scheme>(ctx: &Ctx<S>, inst: &S::Inst, wit: &S::Wit, stream: u64, pins: &[Vec<u8>]) -> Option<Enc> {
    tap::oracle(Some(Oracle::Pin(pins.to_vec())));
    let r = prove_caught::<S>(&ctx.pk, inst, wit, &mut SimRng::new(stream));
    tap::oracle(None);
    r.ok().and_then(|b| catch(|| S::canon(&b)).ok().and_then(|x| x.ok()))
}
fn at<'a>(e: &'a Enc, s: &Slot) -> &'a [u8] {
    &e.0[s.off..s.off + s.len]
}

fn exec<S: Scheme>(p: &Plan, st: &mut Stats) -> Result<(), Viol> {
    let sh: S::Sh = serde_json::from_value(p.sh.clone()).expect("shape");
    let inst = S::inst(&sh);
    let wit = S::wit(&inst, p.w);
    let set = |st: &mut Stats| {
        let mut rng = SimRng::new(p.seed);
        let r = setup_caught::<S>(&inst, 7, p.w, &mut rng);
        st.inc("event.setup");
        r
    };
    let (ctx, again) = match (set(st), set(st)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            st.inc("event.setup-refused");
            return Ok(());
        }
    };
    st.inc("judged");
    if S::vk_bytes(&ctx.vk) != S::vk_bytes(&again.vk) || S::pk_bytes(&ctx.pk) != S::pk_bytes(&again.pk) || ctx.first != again.first {
        say!(format!("{}: setup not determined by its stream", S::NAME), "two setups from the same random stream give different keys");
    }
    // the stream replayed
    let run = |wit: &S::Wit, rng: &mut SimRng| {
        tap::start();
        let r = prove_caught::<S>(&ctx.pk, &inst, wit, rng);
        (r, tap::take())
    };
    let s0 = p.seed ^ 0x70;
    let mut rng0 = SimRng::new(s0);
    rng0.log = Some(vec![]);
    let (p0, l0) = run(&wit, &mut rng0);
    let words = rng0.log.take().unwrap();
    let p0 = match p0 {
        Ok(b) => b,
        Err(_) => {
            st.inc("event.prove-refused");
            return Ok(());
        }
    };
    let mut rng1 = SimRng::new(s0);
    let (p1, _) = run(&wit, &mut rng1);
    st.inc("judged");
    st.inc("fault.stream-replayed");
    if p1.as_ref().ok() != Some(&p0) {
        say!(format!("{}: proof not determined by its stream", S::NAME), "the same witness and the same random stream give two different proofs");
    }
    st.ev(format!("{} words of randomness, proof {:016x}", words.len(), fnv(&p0)));
    if !S::BLINDS {
        return Ok(());
    }
    let pins: Vec<Vec<u8>> = l0
        .into_iter()
        .filter_map(|e| match e {
            Event::Challenge { value, .. } => Some(value),
            _ => None,
        })
        .collect();
    let base = match pinned::<S>(&ctx, &inst, &wit, s0, &pins) {
        Some(b) => b,
        None => return Ok(()),
    };
    // every word drawn leaves a trace
    let md = modulus_words::<S::F>();
    for w in &p.words {
        if words.is_empty() {
            break;
        }
        let k = (*w % words.len() as u64) as usize;
        // a candidate that the sampler rejected leaves none
        let a = k / 4 * 4;
        if a + 4 <= words.len() && !below(&words[a..a + 4], &md) {
            continue;
        }
        let mut r = SimRng::new(s0);
        r.tweak = Some(k as u64);
        let (q, _) = run(&wit, &mut r);
        st.inc("fault.stream-word-flipped");
        st.inc("judged");
        if q.as_ref().ok() == Some(&p0) {
            let idle = |k: usize| {
                let mut r = SimRng::new(s0);
                r.tweak = Some(k as u64);
                run(&wit, &mut r).0.as_ref().ok() == Some(&p0)
            };
            if S::NAME == "marlin" && (0..(words.len() / 4).min(16)).filter(|g| below(&words[g * 4..g * 4 + 4], &md) && idle(g * 4)).count() == 1 {
                // the coefficient of the mask polynomial that makes it sum to zero is drawn, then set
                st.inc("event.marlin-balanced-coefficient");
                continue;
            }
            say!(format!("{}: randomness drawn but not used", S::NAME), format!("word {} of the {} drawn from the random stream has no influence on the proof", k, words.len()));
        }
    }
    // streams
    let runs: Vec<Enc> = p.streams.iter().filter_map(|s| pinned::<S>(&ctx, &inst, &wit, *s, &pins)).filter(|e| e.1 == base.1).collect();
    st.add("fault.stream-replaced", runs.len() as u64);
    if runs.len() < 3 {
        return Ok(());
    }
    let mut slots = mutate::layout(S::CURVE, &base.0, &base.1);
    for s in slots.iter_mut() {
        // a point that happens to read as a scalar
        if s.kind == Kind::S25 && runs.iter().any(|r| mutate::layout(S::CURVE, &r.0, &r.1).iter().any(|t| t.off == s.off && t.kind == Kind::P25)) {
            s.kind = Kind::P25;
        }
    }
    for o in &p.others {
        let w2 = S::wit(&inst, *o);
        let other = match pinned::<S>(&ctx, &inst, &w2, s0, &pins) {
            Some(e) if e.1 == base.1 => e,
            _ => continue,
        };
        st.inc("fault.witness-replaced");
        let public = S::public_part(&base.0);
        let carry: Vec<usize> = (0..slots.len()).filter(|i| !public.contains(i) && !matches!(slots[*i].kind, Kind::Len | Kind::Flag) && at(&base, &slots[*i]) != at(&other, &slots[*i])).collect();
        st.ev(format!("witness {}: {} of {} components carry it", o, carry.len(), slots.len()));
        st.add("event.components-carrying-the-witness", carry.len() as u64);
        // bare components
        for i in &carry {
            st.inc("judged");
            if runs.iter().all(|r| at(r, &slots[*i]) == at(&base, &slots[*i])) {
                say!(
                    format!("{}: unmasked {}", S::NAME, cls(&slots[*i])),
                    format!("component {} of {} ({:?}) changes with the witness but not with the random stream", i, slots.len(), slots[*i].kind),
                );
            }
        }
        // one mask for two components
        let d = |e: &Enc, i: usize| diff(slots[i].kind, at(e, &slots[i]), at(&base, &slots[i]));
        let vary: Vec<usize> = (0..slots.len()).filter(|i| !matches!(slots[*i].kind, Kind::Len | Kind::Flag) && at(&base, &slots[*i]) != at(&runs[0], &slots[*i])).collect();
        let dr: Vec<Vec<Option<Vec<u8>>>> = runs.iter().take(3).map(|r| vary.iter().map(|i| d(r, *i)).collect()).collect();
        for (sign, neg) in [("equal", false), ("opposite", true)] {
            let key = |x: &Option<Vec<u8>>, k: Kind| x.as_ref().and_then(|b| if neg { mutate::elem(k, b, El::Neg, 0) } else { Some(b.clone()) });
            let mut seen: std::collections::HashMap<Vec<u8>, Vec<usize>> = Default::default();
            for (a, i) in vary.iter().enumerate() {
                let _ = i;
                if let (Some(x), Some(y)) = (&dr[0][a], &dr[1][a]) {
                    seen.entry([&x[..], &y[..]].concat()).or_default().push(a);
                }
            }
            for (b, j) in vary.iter().enumerate() {
                let kb = slots[*j].kind;
                let (x, y) = match (key(&dr[0][b], kb), key(&dr[1][b], kb)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => continue,
                };
                for a in seen.get(&[&x[..], &y[..]].concat()).map(|v| &v[..]).unwrap_or(&[]) {
                    if *a >= b || slots[vary[*a]].kind != kb {
                        continue;
                    }
                    st.inc("judged");
                    // not the same message twice
                    let same = at(&base, &slots[vary[*a]]) == key(&Some(at(&base, &slots[*j]).to_vec()), kb).unwrap_or_default().as_slice();
                    if same || dr[2][*a] != key(&dr[2][b], kb) || !nonzero(kb, &dr[0][b]) {
                        continue;
                    }
                    say!(
                        format!("{}: one mask for two {}s", S::NAME, cls(&slots[*j])),
                        format!("components {} and {} of {} ({:?}) differ but move by {} amounts under every random stream: they share a mask", vary[*a], j, slots.len(), kb, sign),
                    );
                }
            }
        }
        // scalars: what the witness can do, the masks can do
        let sc: Vec<usize> = carry.iter().copied().filter(|i| matches!(slots[*i].kind, Kind::Scalar | Kind::S25)).collect();
        let val = |e: &Enc, i: usize| S::F::deserialize(at(e, &slots[i])).ok();
        let row = |e: &Enc, c: &[usize]| -> Option<Vec<S::F>> { c.iter().map(|i| Some(val(e, *i)? - val(&base, *i)?)).collect() };
        let mut groups: Vec<Vec<usize>> = vec![];
        for a in 0..sc.len() {
            for b in a + 1..sc.len() {
                groups.push(vec![sc[a], sc[b]]);
            }
        }
        let wide = (runs.len() - 1).min(6);
        if wide > 2 {
            for a in 0..sc.len().saturating_sub(wide - 1) {
                groups.push(sc[a..a + wide].to_vec());
            }
            let mut rg = Rg::new(p.seed ^ o);
            for _ in 0..sc.len() * 2 {
                let mut g: Vec<usize> = (0..wide).map(|_| *rg.pick(&sc)).collect();
                g.sort();
                g.dedup();
                groups.push(g);
            }
        }
        for g in groups {
            let rows: Option<Vec<Vec<S::F>>> = runs.iter().map(|r| row(r, &g)).collect();
            let (rows, w) = match (rows, row(&other, &g)) {
                (Some(r), Some(w)) => (r, w),
                _ => continue,
            };
            st.inc("judged");
            st.inc("event.mask-groups");
            if !in_span(rows, w) {
                say!(
                    format!("{}: masks of {} responses are dependent", S::NAME, g.len()),
                    format!("scalar components {:?} of {}: another witness moves them in a direction no random stream does, so a combination of them is unmasked", g, slots.len()),
                );
            }
        }
        for (name, ok) in S::mask_relations(&ctx.pk, &ctx.vk, &runs[0].0, &base.0) {
            st.inc("judged");
            if !ok {
                say!(format!("{}: {}", S::NAME, name), format!("under two random streams the masks of two components of the proof are found to be the same draw: {}", name));
            }
        }
    }
    Ok(())
}
fn cls(s: &Slot) -> &'static str {
    if matches!(s.kind, Kind::Scalar | Kind::S25) {
        "scalar"
    } else {
        "group element"
    }
}
fn nonzero(k: Kind, b: &Option<Vec<u8>>) -> bool {
    b.as_ref().is_some_and(|b| mutate::elem(k, b, El::Double, 0).as_ref() != Some(b))
}
fn diff(k: Kind, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    mutate::sub(k, a, b)
}
fn modulus_words<F: PrimeField>() -> [u64; 4] {
    use ark_ff::{BigInteger, FpParameters};
    let mut b = vec![];
    F::Params::MODULUS.write_le(&mut b).expect("modulus");
    let mut w = [0u64; 4];
    for (i, c) in b.chunks(8).take(4).enumerate() {
        w[i] = u64::from_le_bytes(c.try_into().unwrap());
    }
    w
}
/// would the field sampler take these words?
fn below(w: &[u64], m: &[u64; 4]) -> bool {
    let top = u64::MAX >> m[3].leading_zeros();
    let x = [w[0], w[1], w[2], w[3] & top];
    for i in (0..4).rev() {
        if x[i] != m[i] {
            return x[i] < m[i];
        }
    }
    false
}
/// is `w` a combination of the rows?
fn in_span<F: PrimeField>(mut rows: Vec<Vec<F>>, mut w: Vec<F>) -> bool {
    let n = w.len();
    let mut top = 0;
    for c in 0..n {
        let p = match (top..rows.len()).find(|r| !rows[*r][c].is_zero()) {
            Some(p) => p,
            None => {
                if !w[c].is_zero() {
                    return false;
                }
                continue;
            }
        };
        rows.swap(top, p);
        let inv = rows[top][c].inverse().unwrap();
        let piv = rows[top].clone();
        for r in rows[top + 1..].iter_mut() {
            let f = r[c] * inv;
            if !f.is_zero() {
                for k in c..n {
                    r[k] -= f * piv[k];
                }
            }
        }
        let f = w[c] * inv;
        for k in c..n {
            w[k] -= f * piv[k];
        }
        top += 1;
    }
    true
}

pub struct Entropy;
fn systems() -> Vec<ESys> {
    use crate::schemes::{gkr::*, plonk::*, r1cs::*};
    use ark_bls12_381::Bls12_381 as B;
    use zkp_curve25519::Curve25519 as C;
    vec![
        esys::<Groth16>(3),
        esys::<Marlin>(3),
        esys::<Plonk>(1),
        esys::<Bp<B>>(1),
        esys::<Bp<C>>(2),
        esys::<SpSnark<B>>(1),
        esys::<SpSnark<C>>(3),
        esys::<SpNizk<B>>(1),
        esys::<SpNizk<C>>(4),
        esys::<Libra<B>>(1),
        esys::<LibraZk<B>>(1),
        esys::<LibraZk<C>>(4),
        esys::<Hyrax<B>>(1),
        esys::<Hyrax<C>>(4),
    ]
}
impl Check for Entropy {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            260
        } else {
            9000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let v: Vec<ESys> = systems();
        let total: u64 = v.iter().map(|s| s.weight).sum();
        let mut x = r.below(total as usize) as u64;
        for s in &v {
            if x < s.weight {
                return serde_json::to_value((s.plan)(&mut r, t)).unwrap();
            }
            x -= s.weight;
        }
        unreachable!()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = systems().into_iter().find(|s| s.name == p.scheme).expect("system");
        st.inc(&format!("sys.{}", s.name));
        rayon_core::sim_install(p.seed, 1, 0, 0);
        let r = (s.exec)(&p, st);
        rayon_core::sim_remove();
        tap::oracle(None);
        r
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let s = systems().into_iter().find(|s| s.name == p.scheme).expect("system");
        (s.shrink)(&p).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }
    fn rule(&self) -> String {
        "one run = one circuit, its keys, and one prover run again and again with the random stream replayed, replaced or changed in one word, with other witnesses, under the same challenges; \
         distinct = different execution traces"
            .into()
    }
    fn components(&self) -> Value {
        json!({"real": "setups and provers of all seven proof systems", "stub": "the random stream and, in part of the runs, the random oracle's answers are the simulator's"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a component is treated as carrying the witness when another witness changes it under the same stream and challenges".into(),
            "relations between masks of group elements are looked for with coefficients 1 and -1 only".into(),
        ]
    }
}
