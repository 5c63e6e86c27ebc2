//! C18, native part: a tree server with a durable leaf log and light clients.  Replies are delayed,
//! reordered, duplicated, answered by a stale or rewritten tree, or forged; the server crashes between
//! and in the middle of writing an update and rebuilds its tree from what is durable.  A client asks
//! for a position, knows the root and size of a version, and accepts when `verify` says so.
use crate::gadg::{MMimc, MSha};
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::util::*;
use ark_bls12_381::Fr as F;
use serde_json::{json, Value};
use zkp_gadgets::merkletree::cbmt::{MerkleProof, Merge, CBMT};

pub struct Merk(pub bool);

pub trait Leaf: Clone + Ord + Default + std::fmt::Debug {
    type M: Merge<Item = Self>;
    fn of(r: &mut Rg) -> Self;
    fn nudge(&mut self, r: &mut Rg);
}
impl Leaf for Vec<u8> {
    type M = MSha;
    fn of(r: &mut Rg) -> Self {
        (0..32).map(|_| r.u64() as u8).collect()
    }
    fn nudge(&mut self, r: &mut Rg) {
        let k = r.below(self.len().max(1));
        match self.get_mut(k) {
            Some(b) => *b ^= 1 << r.below(8),
            None => self.push(0),
        }
    }
}
impl Leaf for F {
    type M = MMimc;
    fn of(r: &mut Rg) -> Self {
        F::from(r.u64()) * F::from(r.u64())
    }
    fn nudge(&mut self, r: &mut Rg) {
        *self += F::from(1 + r.u64() % 7)
    }
}
/// a merge which keeps its history: two different trees never share a node
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug)]
pub struct Term(String);
pub struct MTerm;
impl Merge for MTerm {
    type Item = Term;
    fn merge(l: &Term, r: &Term) -> Term {
        Term(format!("({} {})", l.0, r.0))
    }
}
impl Leaf for Term {
    type M = MTerm;
    fn of(r: &mut Rg) -> Self {
        Term(format!("{:x}", r.u64() >> 40))
    }
    fn nudge(&mut self, r: &mut Rg) {
        self.0.push_str(["a", "b", "c"][r.below(3)])
    }
}

/// the tree by definition: node i is the merge of nodes 2i+1 and 2i+2, leaves last
fn node<T: Leaf>(leaves: &[T], i: usize) -> T {
    let n = leaves.len();
    if i >= n - 1 {
        leaves[i - (n - 1)].clone()
    } else {
        T::M::merge(&node(leaves, 2 * i + 1), &node(leaves, 2 * i + 2))
    }
}
fn path<T: Leaf>(leaves: &[T], k: usize) -> Vec<T> {
    let mut i = leaves.len() - 1 + k;
    let mut v = vec![];
    while i > 0 {
        v.push(node(leaves, if i % 2 == 1 { i + 1 } else { i - 1 }));
        i = (i - 1) / 2;
    }
    v
}

fn go<T: Leaf>(plan: &Value, crash_only: bool, st: &mut Stats) -> Result<(), Viol> {
    let mut r = Rg::new(plan["seed"].as_u64().unwrap());
    let max = plan["max"].as_u64().unwrap() as usize;
    // durable log of the server, and every version ever published
    let mut versions: Vec<Vec<T>> = vec![(0..r.below(max + 1)).map(|_| T::of(&mut r)).collect()];
    let mut tree = CBMT::<T, T::M>::build_merkle_tree(versions[0].clone());
    let mut served = 0usize; // version the running server has in memory
    let mut inter = 0u64;
    for (t, op) in plan["ops"].as_array().unwrap().iter().enumerate() {
        let what = op["op"].as_str().unwrap();
        let mut r = Rg::new(op["s"].as_u64().unwrap());
        inter = mix2(inter, hstr(what));
        st.ev(format!("{} {}", t, what));
        match what {
            "update" => {
                let mut v = versions.last().unwrap().clone();
                match r.below(3) {
                    0 if v.len() < max => v.push(T::of(&mut r)),
                    1 if !v.is_empty() => {
                        v.pop();
                    }
                    _ if !v.is_empty() => {
                        let k = r.below(v.len());
                        v[k].nudge(&mut r);
                    }
                    _ => {}
                }
                versions.push(v.clone());
                // a crash after the log write and before the rebuild leaves the old tree in memory
                if op["slow"].as_bool().unwrap() {
                    st.inc("fault.stale_server");
                } else {
                    tree = CBMT::<T, T::M>::build_merkle_tree(v);
                    served = versions.len() - 1;
                }
            }
            "restart" => {
                st.inc("fault.crash_restart");
                tree = CBMT::<T, T::M>::build_merkle_tree(versions.last().unwrap().clone());
                served = versions.len() - 1;
            }
            "ask" => {
                let v = &versions[served];
                let n = v.len();
                let root = tree.root();
                let alt = CBMT::<T, T::M>::build_merkle_root(v);
                st.inc("judged");
                if crash_only {
                } else if n == 0 {
                    if root != T::default() || alt != T::default() || !tree.nodes().is_empty() {
                        return viol("merkle: empty tree", "an empty list has a root");
                    }
                } else if root != node(v, 0) || alt != root {
                    return viol("merkle: root", format!("{} leaves: tree.root() or build_merkle_root() is not the root of the tree", n));
                }
                let k = match r.below(8) {
                    0 => *r.pick(&[n as u32, n as u32 + 1, u32::MAX, u32::MAX - n as u32, 1 << 31]),
                    _ => r.below(n.max(1)) as u32,
                };
                let p = tree.build_proof(&k);
                let q = CBMT::<T, T::M>::build_merkle_proof(v, &k);
                if p.is_some() != q.is_some() || (!crash_only && p.is_some() != ((k as usize) < n)) {
                    return viol("merkle: position", format!("a proof of position {} of {} leaves: {} {}", k, n, p.is_some(), q.is_some()));
                }
                let p = match p {
                    None => continue,
                    Some(p) => p,
                };
                let want = path(v, k as usize);
                if !crash_only && (*p.index() != n as u32 - 1 + k || p.lemmas() != &want[..] || q.as_ref().map(|q| q.lemmas() != p.lemmas() || q.index() != p.index()).unwrap_or(true)) {
                    return viol("merkle: path", format!("the proof of position {} of {} leaves is not its path", k, n));
                }
                // what arrives at the client
                let (mut idx, mut lem, mut leaf) = (*p.index(), p.lemmas().to_vec(), v[k as usize].clone());
                let how = op["net"].as_str().unwrap();
                st.inc(&format!("fault.{}", how));
                match how {
                    "leaf" => leaf.nudge(&mut r),
                    "other_leaf" => leaf = v[r.below(n)].clone(),
                    "lemma" if !lem.is_empty() => {
                        let i = r.below(lem.len());
                        lem[i].nudge(&mut r)
                    }
                    "swap" if lem.len() > 1 => {
                        let (i, j) = (r.below(lem.len()), r.below(lem.len()));
                        lem.swap(i, j)
                    }
                    "drop" if !lem.is_empty() => {
                        let i = r.below(lem.len());
                        lem.remove(i);
                    }
                    "more" => {
                        let i = r.below(lem.len() + 1);
                        let x = tree.nodes()[r.below(tree.nodes().len())].clone();
                        lem.insert(i, x)
                    }
                    "empty" => {
                        lem.clear();
                        if r.pct(70) {
                            leaf = root.clone()
                        }
                    }
                    // an inner node as the leaf
                    "inner" if !lem.is_empty() => {
                        let d = r.range(1, lem.len());
                        let mut a = idx;
                        for _ in 0..d {
                            a = (a - 1) >> 1
                        }
                        leaf = tree.nodes()[a as usize].clone();
                        lem.drain(..d);
                        if r.pct(30) {
                            idx = a
                        }
                    }
                    "index" => {
                        idx = match r.below(4) {
                            0 => r.below(2 * n) as u32,
                            1 => *r.pick(&[0, u32::MAX, u32::MAX - 1, 1 << 31]),
                            2 => ((idx + 1) ^ 1).wrapping_sub(1),
                            _ => idx.wrapping_add(1),
                        }
                    }
                    "other_path" => {
                        let j = r.below(n) as u32;
                        let o = tree.build_proof(&j).unwrap();
                        lem = o.lemmas().to_vec();
                        if r.pct(50) {
                            idx = *o.index()
                        }
                    }
                    _ => {}
                }
                let cv = op["known"].as_u64().unwrap() as usize % versions.len();
                // the client knows some version: usually the one served
                let cv = if r.pct(70) { served } else { cv };
                let known = &versions[cv];
                let proof = MerkleProof::<T, T::M>::new(idx, lem.clone());
                let kroot = if known.is_empty() { T::default() } else { node(known, 0) };
                let got = proof.verify(&kroot, &leaf);
                st.inc(if got { "accepted" } else { "rejected" });
                st.ev(format!("{} {} {} -> {}", how, idx, lem.len(), got));
                if crash_only {
                    continue;
                }
                let m = known.len();
                // the client asked for position k of its version
                let at = (idx as i64) - (m as i64 - 1);
                let honest = at >= 0 && (at as usize) < m && known[at as usize] == leaf && path(known, at as usize) == lem;
                if honest && !got {
                    return viol("merkle: member rejected", format!("position {} of {} leaves", at, m));
                }
                // an index of the client's version that is a leaf position
                if got && !honest && at >= 0 && (at as usize) < m {
                    return viol("merkle: foreign proof accepted", format!("{}: position {} of {} leaves, {} lemmas", how, at, m, lem.len()));
                }
                if got && m > 0 {
                    // whatever the index, the path climbs to the root in as many steps as its depth
                    let (mut d, mut i) = (0, idx);
                    while i > 0 {
                        i = (i - 1) >> 1;
                        d += 1
                    }
                    if d != lem.len() {
                        return viol("merkle: path of another length accepted", format!("{}: index {} with {} lemmas", how, idx, lem.len()));
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    st.set("interleavings", inter);
    st.add("sim_ms", plan["ops"].as_array().unwrap().len() as u64 * 10);
    Ok(())
}

const NET: &[&str] = &["clean", "clean", "leaf", "other_leaf", "lemma", "swap", "drop", "more", "empty", "inner", "inner", "index", "index", "other_path"];

impl Check for Merk {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            4000
        } else {
            80000
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let item = *r.pick(&["sha", "sha", "term", "term", "mimc"]);
        let max = if item == "mimc" { 9 } else { *r.pick(&[2, 5, 9, 17, if t == Tier::Quick { 33 } else { 130 }]) };
        let n = r.range(4, 24);
        let ops: Vec<Value> = (0..n)
            .map(|_| match r.below(10) {
                0 | 1 => json!({"op": "update", "s": r.seed(), "slow": r.pct(30)}),
                2 => json!({"op": "restart", "s": r.seed()}),
                _ => json!({"op": "ask", "s": r.seed(), "net": *r.pick(NET), "known": r.seed()}),
            })
            .collect();
        json!({"item": item, "max": max, "seed": r.seed(), "ops": ops})
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let r = catch(|| match plan["item"].as_str().unwrap() {
            "sha" => go::<Vec<u8>>(plan, self.0, st),
            "mimc" => go::<F>(plan, self.0, st),
            _ => go::<Term>(plan, self.0, st),
        });
        match r {
            Err(p) if !p.starts_with("src/") => viol(format!("merkle: panic in {}", panic_site(&p)), p),
            Err(p) => panic!("{}", p),
            Ok(r) => r,
        }
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let mut v = vec![];
        let ops = plan["ops"].as_array().unwrap();
        for i in (0..ops.len()).rev() {
            let mut q = plan.clone();
            q["ops"].as_array_mut().unwrap().remove(i);
            v.push(q);
        }
        v
    }
    fn rule(&self) -> String {
        "one run = one tree server with updates, crashes and restarts, and clients whose answers the network rewrites; every root, path and verdict is compared with the tree by definition; distinct = different execution traces".into()
    }
    fn components(&self) -> Value {
        json!({"real": "zkp-gadgets merkletree::cbmt (CBMT, MerkleTree, MerkleProof)", "stub": "server storage, network, merge functions (sha-256, reference MiMC, free terms)"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["leaves have one fixed size (the merge concatenates)".into(), "a client compares the index of a proof with the position it asked for".into()]
    }
}
