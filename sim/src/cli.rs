//! C19: the three command-line tools over a faulty disk.  The real binaries run as child
//! processes in a scratch directory; a shim under their libc decides their randomness and what
//! every file operation does (crash, torn, lost, short or failing writes and reads, full disk).
//! Between the tools the simulated machine may lose power, damage, swap or bring back files.
use crate::runner::{viol, Check, Stats, Tier, Viol};
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const SCHEMES: [&str; 4] = ["groth16", "spartan_snark", "spartan_nizk", "bulletproofs"];
const CIRCUITS: [&str; 2] = ["mini", "hash"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    kind: String,
    at: u64,
    arg: u64,
}
/// scheme and circuit
type Pair = (u8, u8);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Setup { p: Pair, seed: u64, faults: Vec<Fault> },
    Prove { p: Pair, args: Vec<String>, seed: u64, faults: Vec<Fault> },
    Verify { p: Pair, faults: Vec<Fault> },
    /// the machine loses power: what the last tool wrote is only partly on disk
    Power { seed: u64 },
    /// a file is damaged at rest (0 prove key or universal setup, 1 verify key, 2 proof file)
    Damage { p: Pair, file: u8, kind: String, a: u64, b: u64 },
    /// an earlier version of a file comes back
    Stale { p: Pair, file: u8, back: u64 },
    /// two files change places
    Swap { p: Pair, q: Pair, file: u8 },
    /// the fields of a proof file change
    Edit { p: Pair, kind: String, a: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pairs: Vec<Pair>,
    steps: Vec<Step>,
    /// seed and arguments of the final, undisturbed pass
    fin: u64,
    args: Vec<Vec<String>>,
}

fn sch(p: Pair) -> &'static str {
    SCHEMES[p.0 as usize % 4]
}
fn cir(p: Pair) -> &'static str {
    CIRCUITS[p.1 as usize % 2]
}
fn heavy(p: Pair) -> bool {
    cir(p) == "hash" && (sch(p) == "spartan_snark" || sch(p) == "bulletproofs")
}
fn file(p: Pair, f: u8) -> String {
    let uni = sch(p).starts_with("spartan");
    match f {
        2 => format!("proof_files/{}-bls12_381-{}.proof.json", sch(p), cir(p)),
        0 | 1 if uni => format!("setup_files/{}-bls12_381-{}.universal_setup", sch(p), cir(p)),
        0 => format!("setup_files/{}-bls12_381-{}.pk", sch(p), cir(p)),
        _ => format!("setup_files/{}-bls12_381-{}.vk", sch(p), cir(p)),
    }
}

struct Done {
    ok: bool,
    out: String,
    ops: u64,
    fired: Vec<String>,
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn tools() -> PathBuf {
    if let Ok(t) = std::env::var("DST_CLI") {
        return t.into();
    }
    let exe = std::env::current_exe().expect("own path");
    exe.ancestors().nth(3).expect("layout").join("target-cli")
}
fn tool(dir: &Path, name: &str, args: &[&str], seed: u64, faults: &str) -> Done {
    let log = dir.join("ops.log");
    let _ = std::fs::remove_file(&log);
    let t = tools();
    let (so, se) = (dir.join("stdout"), dir.join("stderr"));
    let mut ch = Command::new(t.join("release").join(name))
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", t.join("shim.so"))
        .env("DST_SEED", seed.to_string())
        .env("DST_LOG", &log)
        .env("DST_FAULTS", faults)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).expect("scratch"))
        .stderr(std::fs::File::create(&se).expect("scratch"))
        .spawn()
        .expect("start a tool");
    let t0 = Instant::now();
    let mut nap = 1;
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        assert!(t0.elapsed() < Duration::from_secs(140), "{} did not end", name);
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    };
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let mut fired = vec![];
    let mut ops = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() == 5 {
            if w[1] != "random" {
                ops += 1;
            }
            if w[4] != "-" {
                fired.push(format!("{} at {}", w[4], w[1]));
            }
        }
    }
    Done { ok: st.success(), out: std::fs::read_to_string(&so).unwrap_or_default(), ops, fired }
}

type Disk = BTreeMap<String, Vec<u8>>;
fn read_disk(dir: &Path) -> Disk {
    let mut d = Disk::new();
    for s in ["setup_files", "proof_files"] {
        if let Ok(rd) = std::fs::read_dir(dir.join(s)) {
            for e in rd.flatten() {
                if let Ok(b) = std::fs::read(e.path()) {
                    d.insert(format!("{}/{}", s, e.file_name().to_string_lossy()), b);
                }
            }
        }
    }
    d
}
fn put(dir: &Path, f: &str, b: Option<&Vec<u8>>) {
    let p = dir.join(f);
    match b {
        Some(b) => {
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            std::fs::write(p, b).expect("scratch");
        }
        None => {
            let _ = std::fs::remove_file(p);
        }
    }
}

/// the statement a proof file shows, in one form
fn shown(v: &Value) -> Option<(String, String, String)> {
    if v["curve"].as_str()? != "bls12_381" {
        return None;
    }
    let (s, c) = (v["scheme"].as_str()?, v["circuit"].as_str()?);
    let p = v["params"][0].as_str()?;
    let st = match c {
        "mini" => p.parse::<u64>().ok()?.to_string(),
        "hash" => {
            let b = hex(p)?;
            // a longer string shows the image followed by something that is not part of it
            b.get(..32)?.iter().map(|x| format!("{:02x}", x)).collect()
        }
        _ => return None,
    };
    Some((s.into(), c.into(), st))
}
fn hex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn tohex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
/// what the tools were asked to prove: the statement, and whether the witness satisfies it
fn asked(p: Pair, args: &[String]) -> Option<(String, bool)> {
    if cir(p) == "mini" {
        let n: Vec<u64> = args.iter().filter_map(|x| x.parse().ok()).collect();
        if n.len() < 3 {
            return None;
        }
        let lhs = (n[0] as u128).checked_mul(n[1] as u128 + 2);
        Some((n[2].to_string(), lhs == Some(n[2] as u128)))
    } else {
        use ark_serialize::CanonicalSerialize;
        let h: ark_bls12_381::Fr = zkp_gadgets::hashes::mimc::hash(args.get(0)?.as_bytes());
        let mut b = vec![];
        h.serialize(&mut b).ok()?;
        Some((tohex(&b), true))
    }
}
/// a proof that a tool really made
struct Real {
    scheme: String,
    circuit: String,
    stmt: String,
    proof: Vec<u8>,
    truth: bool,
    /// the key it was made with
    key: u64,
}
struct World<'a> {
    dir: PathBuf,
    st: &'a mut Stats,
    real: Vec<Real>,
    /// verify keys that setup really made, and the prove keys they came with
    keys: BTreeMap<u64, u64>,
    /// every version of every file
    past: BTreeMap<String, Vec<Vec<u8>>>,
    before: Disk,
    touched: BTreeSet<String>,
    swapped: bool,
    verify_wrote: bool,
}

impl<'a> World<'a> {
    fn has(&self, f: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(f)).ok()
    }
    fn archive(&mut self) {
        for (f, b) in read_disk(&self.dir) {
            let v = self.past.entry(f).or_default();
            if v.last() != Some(&b) {
                v.push(b);
                if v.len() > 5 {
                    v.remove(0);
                }
            }
        }
    }
    fn count(&mut self, d: &Done) {
        for f in &d.fired {
            self.st.inc(&format!("fault.{}", f));
        }
        self.st.add("event.file operations", d.ops);
    }
    fn faults(&self, fs: &[Fault], ops: u64) -> String {
        fs.iter().map(|f| format!("{}:{}:{}", f.kind, f.at % ops.max(1), f.arg)).collect::<Vec<_>>().join(",")
    }
    /// what the tool would have written, had nothing gone wrong
    fn shadow(&mut self, name: &str, args: &[&str], seed: u64) -> (Done, PathBuf) {
        let sh = self.dir.join("shadow");
        let _ = std::fs::remove_dir_all(&sh);
        std::fs::create_dir_all(&sh).expect("scratch");
        for (f, b) in read_disk(&self.dir) {
            put(&sh, &f, Some(&b));
        }
        for d in ["setup_files", "proof_files"] {
            if self.dir.join(d).exists() {
                let _ = std::fs::create_dir_all(sh.join(d));
            }
        }
        let d = tool(&sh, name, args, seed, "");
        (d, sh)
    }
    fn act(&mut self, name: &str, args: &[&str], seed: u64, fs: &[Fault]) -> (Done, Option<PathBuf>) {
        let was = read_disk(&self.dir);
        let mut at = None;
        let spec = if fs.is_empty() {
            String::new()
        } else {
            let (d, sh) = self.shadow(name, args, seed);
            at = Some((d.ok, sh));
            self.faults(fs, d.ops)
        };
        let d = tool(&self.dir, name, args, seed, &spec);
        self.count(&d);
        let now = read_disk(&self.dir);
        let touched: BTreeSet<String> = now.iter().filter(|(f, b)| was.get(*f) != Some(b)).map(|x| x.0.clone()).collect();
        if name != "zkp-verify" {
            self.before = was;
            self.touched = touched;
        } else if now != was {
            self.verify_wrote = true;
        }
        let src = match at {
            Some((true, sh)) => Some(sh),
            Some((false, _)) => None,
            None if d.ok => Some(self.dir.clone()),
            None => None,
        };
        (d, src)
    }
    fn setup(&mut self, p: Pair, seed: u64, fs: &[Fault]) -> Result<bool, Viol> {
        let (d, src) = self.act("setup", &[sch(p), "bls12_381", cir(p)], seed, fs);
        if let Some(src) = src {
            let h = |f| std::fs::read(src.join(file(p, f))).map(|b| fnv(&b)).unwrap_or(0);
            self.keys.insert(h(1), h(0));
        }
        self.archive();
        self.st.ev(format!("setup {} {} ok {} {:?}", sch(p), cir(p), d.ok, d.fired));
        Ok(d.ok)
    }
    fn prove(&mut self, p: Pair, args: &[String], seed: u64, fs: &[Fault]) -> Result<bool, Viol> {
        let mut a = vec![sch(p), "bls12_381", cir(p)];
        a.extend(args.iter().map(|x| x.as_str()));
        let key = self.has(&file(p, 0)).map(|b| fnv(&b)).unwrap_or(0);
        let (d, src) = self.act("zkp-prove", &a, seed, fs);
        if let (Some(src), Some((stmt, truth))) = (src, asked(p, args)) {
            if let Some(v) = std::fs::read(src.join(file(p, 2))).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                if shown(&v) != Some((sch(p).into(), cir(p).into(), stmt.clone())) {
                    return viol(
                        "the proof file shows another statement",
                        format!("zkp-prove {:?} wrote a proof file that shows {:?} instead of {}", a, shown(&v), stmt),
                    );
                }
                if let Some(proof) = v["proof"].as_str().and_then(hex) {
                    self.real.push(Real { scheme: sch(p).into(), circuit: cir(p).into(), stmt, proof, truth, key });
                }
            }
        }
        self.archive();
        self.st.ev(format!("prove {} {} {:?} ok {} {:?}", sch(p), cir(p), args, d.ok, d.fired));
        Ok(d.ok)
    }
    fn verify(&mut self, p: Pair, fs: &[Fault]) -> Result<bool, Viol> {
        let f = file(p, 2);
        let (d, _) = self.act("zkp-verify", &[&f], 1, fs);
        if self.verify_wrote {
            return viol("verify changes files", "zkp-verify changed a key or proof file");
        }
        let yes = d.out.lines().any(|l| l.trim() == "Verify is: true");
        self.st.inc(&format!("verdict.{}", if yes { "true" } else if d.out.contains("Verify is: false") { "false" } else { "no verdict" }));
        self.st.inc("judged");
        self.st.ev(format!("verify {} {} says {} {:?}", sch(p), cir(p), yes, d.fired));
        if yes {
            self.judge(p)?;
        }
        Ok(yes)
    }
    /// "true" was printed about the proof file of `p`
    fn judge(&mut self, p: Pair) -> Result<(), Viol> {
        let raw = self.has(&file(p, 2)).unwrap_or_default();
        let v = serde_json::from_slice::<Value>(&raw).unwrap_or(Value::Null);
        let (s, c, stmt) = match shown(&v) {
            Some(x) => x,
            None => return viol("a file without a statement verifies", format!("zkp-verify reports true for a file that shows no statement: {}", cut(&raw))),
        };
        let bytes = v["proof"].as_str().and_then(hex).unwrap_or_default();
        let of: Vec<&Real> = self
            .real
            .iter()
            .filter(|r| r.scheme == s && r.circuit == c && r.stmt == stmt && !r.proof.is_empty() && bytes.starts_with(&r.proof))
            .collect();
        if of.is_empty() {
            let same: Vec<String> = self.real.iter().filter(|r| bytes.starts_with(&r.proof)).map(|r| format!("{} {} {}", r.scheme, r.circuit, r.stmt)).collect();
            return viol(
                "a proof that nobody made for the statement verifies",
                format!("zkp-verify reports true for {} {} {}; the proof in the file was made for: {:?}", s, c, stmt, same),
            );
        }
        if !of.iter().any(|r| r.truth) {
            return viol("a false statement verifies", format!("zkp-verify reports true for {} {} {}, which is false for the given witness", s, c, stmt));
        }
        let q: Pair = (SCHEMES.iter().position(|x| *x == s).unwrap_or(0) as u8, CIRCUITS.iter().position(|x| *x == c).unwrap_or(0) as u8);
        if s != "bulletproofs" {
            let vk = self.has(&file(q, 1)).map(|b| fnv(&b)).unwrap_or(0);
            if let Some(pk) = self.keys.get(&vk) {
                let known: BTreeSet<u64> = self.keys.values().cloned().collect();
                // made with the key of another setup
                if of.iter().all(|r| r.key != *pk && known.contains(&r.key)) {
                    return viol("a stale proof verifies", format!("zkp-verify reports true for a proof of {} {} {} made with the keys of another setup", s, c, stmt));
                }
            }
        }
        Ok(())
    }
    /// what the last tool wrote was not synced: each file is old, new, or a mixture
    fn power(&mut self, seed: u64) {
        let mut r = Rg::new(seed);
        for f in self.touched.clone() {
            let new = self.has(&f).unwrap_or_default();
            let old = self.before.get(&f).cloned();
            let o = old.clone().unwrap_or_default();
            let k = *r.pick(&["kept", "old", "empty", "prefix", "zeros", "mixed", "mixed"]);
            self.st.inc(&format!("fault.power loss: {}", k));
            match k {
                "kept" => {}
                "old" => put(&self.dir, &f, old.as_ref()),
                "empty" => put(&self.dir, &f, Some(&vec![])),
                "prefix" => put(&self.dir, &f, Some(&new[..r.below(new.len() + 1)].to_vec())),
                "zeros" => {
                    let mut b = new.clone();
                    let from = r.below(new.len() + 1) / 64 * 64;
                    b[from.min(new.len())..].iter_mut().for_each(|x| *x = 0);
                    put(&self.dir, &f, Some(&b))
                }
                _ => {
                    // sectors that reached the disk and sectors that did not
                    let sz = *r.pick(&[32usize, 128, 512]);
                    let mut b = new.clone();
                    for (i, ch) in b.chunks_mut(sz).enumerate() {
                        if r.pct(40) {
                            for (j, x) in ch.iter_mut().enumerate() {
                                *x = o.get(i * sz + j).cloned().unwrap_or(0);
                            }
                        }
                    }
                    put(&self.dir, &f, Some(&b))
                }
            }
        }
    }
    fn damage(&mut self, f: &str, kind: &str, a: u64, b: u64) {
        let mut d = match self.has(f) {
            Some(d) => d,
            None => return,
        };
        let n = d.len().max(1) as u64;
        self.st.inc(&format!("fault.at rest: {}", kind));
        match kind {
            "delete" => return put(&self.dir, f, None),
            "flip" => {
                if let Some(x) = d.get_mut((a % n) as usize) {
                    *x ^= 1 << (b % 8)
                }
            }
            "byte" => {
                if let Some(x) = d.get_mut((a % n) as usize) {
                    *x = b as u8
                }
            }
            // one hex digit of a proof file becomes another
            "digit" => {
                let at: Vec<usize> = d.iter().enumerate().filter(|x| x.1.is_ascii_hexdigit()).map(|x| x.0).collect();
                if !at.is_empty() {
                    d[at[(a % at.len() as u64) as usize]] = b"0123456789abcdef"[(b % 16) as usize];
                }
            }
            "zero" => {
                let (s, l) = ((a % n) as usize / 32 * 32, [8usize, 32, 48, 64, 512][(b % 5) as usize]);
                let e = (s + l).min(d.len());
                d[s.min(e)..e].iter_mut().for_each(|x| *x = 0)
            }
            "truncate" => d.truncate((a % n) as usize),
            "extend" => {
                let l = (a % 40) as usize + 1;
                let t: Vec<u8> = if b % 2 == 0 { vec![0; l] } else { d.iter().cloned().take(l).collect() };
                d.extend(t)
            }
            "repeat" => {
                let s = (a % n) as usize / 32 * 32;
                let t: Vec<u8> = d.iter().cloned().skip(s).take(32).collect();
                let at = (b % n) as usize / 32 * 32;
                for (i, x) in t.into_iter().enumerate() {
                    if let Some(y) = d.get_mut(at + i) {
                        *y = x
                    }
                }
            }
            _ => {}
        }
        put(&self.dir, f, Some(&d))
    }
    fn edit(&mut self, p: Pair, kind: &str, a: u64) {
        let f = file(p, 2);
        let mut v = match self.has(&f).and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            Some(v) if v.is_object() => v,
            _ => return,
        };
        self.st.inc(&format!("fault.proof file: {}", kind));
        let par = v["params"][0].as_str().unwrap_or("").to_string();
        let pb = v["proof"].as_str().and_then(hex).unwrap_or_default();
        let other = |this: &Self, a: u64| this.real.get((a % this.real.len().max(1) as u64) as usize).map(|r| (r.stmt.clone(), r.proof.clone(), r.scheme.clone(), r.circuit.clone()));
        match kind {
            "number" => {
                if let Ok(z) = par.parse::<u64>() {
                    let near: Vec<String> = vec![
                        z.wrapping_add(1).to_string(), z.wrapping_sub(1).to_string(), z.wrapping_add(1 << 32).to_string(),
                        (z ^ 1 << 31).to_string(), (z ^ 1 << 63).to_string(), (z as u128 + (1 << 64)).to_string(), format!("-{}", z),
                        format!("{}0", z), format!("{}.0", z), (z & 0xffff_ffff).to_string(), (z & 0xff).to_string(),
                        format!("{} ", z), format!("0x{:x}", z), format!("{}e0", z), String::new(), "0".into(), z.wrapping_mul(2).to_string(),
                        z.to_string().chars().rev().collect(), (z ^ 1 << (a >> 8) % 64).to_string(),
                        format!("{}_{}", z, 1), format!("x{}", z), format!("{}\u{0}", z), format!("{} {}", z.wrapping_add(1), z),
                    ];
                    v["params"] = json!([near[(a % near.len() as u64) as usize]]);
                } else if let Some(mut b) = hex(&par) {
                    match a % 6 {
                        0 => {
                            let i = ((a >> 8) % b.len().max(1) as u64) as usize;
                            if let Some(x) = b.get_mut(i) {
                                *x ^= 1 << (a >> 4) % 8
                            }
                        }
                        1 => b.truncate(((a >> 8) % (b.len() as u64 + 1)) as usize),
                        2 => b.reverse(),
                        3 => {
                            let i = ((a >> 8) % b.len().max(1) as u64) as usize;
                            b.iter_mut().skip(i).for_each(|x| *x = 0)
                        }
                        4 => {
                            // the same residue, not reduced
                            let m = ark_ff::BigInteger::to_bytes_le(&<<ark_bls12_381::Fr as ark_ff::PrimeField>::Params as ark_ff::FpParameters>::MODULUS);
                            let mut c = 0u16;
                            for (x, y) in b.iter_mut().zip(m) {
                                c += *x as u16 + y as u16;
                                *x = c as u8;
                                c >>= 8;
                            }
                        }
                        _ => b = vec![0; 32],
                    }
                    v["params"] = json!([tohex(&b)]);
                }
            }
            "no params" => v["params"] = json!([]),
            "params away" => {
                v.as_object_mut().unwrap().remove("params");
            }
            "plain number" => {
                if let Ok(z) = par.parse::<u64>() {
                    v["params"] = json!([z.wrapping_add(a % 2)]);
                }
            }
            "two params" => v["params"] = if a % 2 == 0 { json!(["1", par]) } else { json!([format!("{}1", par), par]) },
            "other statement" => {
                if let Some((s, ..)) = other(self, a) {
                    v["params"] = json!([s]);
                }
            }
            "other proof" => {
                if let Some((_, b, ..)) = other(self, a) {
                    v["proof"] = json!(tohex(&b));
                }
            }
            "other scheme" => v["scheme"] = json!(SCHEMES[(a % 4) as usize]),
            "other circuit" => v["circuit"] = json!(CIRCUITS[(a % 2) as usize]),
            "other curve" => v["curve"] = json!(["bn_256", "", "BLS12_381", "bls12_377"][(a % 4) as usize]),
            "proof bit" => {
                let mut b = pb;
                let i = (a / 8 % b.len().max(1) as u64) as usize;
                if let Some(x) = b.get_mut(i) {
                    *x ^= 1 << (a % 8)
                }
                v["proof"] = json!(tohex(&b));
            }
            "proof short" => v["proof"] = json!(tohex(&pb[..(a % (pb.len() as u64 + 1)) as usize])),
            "proof gone" => v["proof"] = [json!(""), Value::Null, json!([]), json!("00")][(a % 4) as usize].clone(),
            "proof zero" => v["proof"] = json!(tohex(&vec![0u8; pb.len()])),
            // every point at infinity, every number zero
            "proof nothing" => {
                let mut b = vec![0u8; pb.len()];
                for ch in b.chunks_mut(48) {
                    if ch.len() == 48 {
                        ch[47] = 0x40
                    }
                }
                v["proof"] = json!(tohex(&b));
            }
            // the statement and proof of one circuit under the name of the other
            "renamed" => {
                if sch(p) == "bulletproofs" || !self.swapped {
                    if let Ok(z) = par.parse::<u64>() {
                        let mut b = z.to_le_bytes().to_vec();
                        b.resize(32, 0);
                        v["params"] = json!([tohex(&b)]);
                        v["circuit"] = json!("hash");
                    }
                }
            }
            "own circuit" => {
                if let Some(b) = own_circuit(a) {
                    v["proof"] = json!(tohex(&b));
                    v["scheme"] = json!("bulletproofs");
                    v["params"] = json!([(a % 1000).to_string()]);
                }
            }
            "own generators" => {
                if v["scheme"] == "bulletproofs" && v["circuit"] == "mini" {
                    if let Some(b) = own_generators(&pb) {
                        v["proof"] = json!(tohex(&b));
                        v["params"] = json!([(a % 1000).to_string()]);
                    }
                }
            }
            _ => {}
        }
        put(&self.dir, &f, Some(&serde_json::to_vec(&v).unwrap()));
    }
}
fn cut(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(200).collect()
}

/// A proof file that brings its own circuit, in which any number is fine.
fn own_circuit(a: u64) -> Option<Vec<u8>> {
    use ark_bls12_381::{Bls12_381, Fr};
    use ark_serialize::CanonicalSerialize;
    use zkp_r1cs::*;
    struct Any(Fr);
    impl ConstraintSynthesizer<Fr> for Any {
        fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
            let x = cs.alloc(|| "", || Ok(self.0))?;
            let y = cs.alloc(|| "", || Ok(self.0))?;
            let _z = cs.alloc_input(|| "", || Ok(self.0))?;
            for _ in 0..10 {
                cs.enforce(|| "", |lc| lc + x, |lc| lc + CS::one(), |lc| lc + y);
            }
            Ok(())
        }
    }
    let mut rng = SimRng::new(a);
    let (g, r, p) = catch(|| zkp_bulletproofs::create_random_proof::<Bls12_381, _, _>(Any(Fr::from(a % 1000)), &mut rng)).ok()?.ok()?;
    let mut b = vec![];
    g.serialize(&mut b).ok()?;
    r.serialize(&mut b).ok()?;
    p.serialize(&mut b).ok()?;
    Some(b)
}
/// A real bulletproofs file with every generator and every point of the proof at infinity.
fn own_generators(real: &[u8]) -> Option<Vec<u8>> {
    let mut b = real.to_vec();
    let inf = |b: &mut [u8], at: usize| -> Option<()> {
        let x = b.get_mut(at..at + 48)?;
        x.iter_mut().for_each(|y| *y = 0);
        x[47] = 0x40;
        Some(())
    };
    let num = |b: &[u8], at: usize| -> Option<usize> {
        let mut x = [0u8; 8];
        x.copy_from_slice(b.get(at..at + 8)?);
        Some(u64::from_le_bytes(x) as usize)
    };
    let mut at = 0;
    let vec = |b: &mut Vec<u8>, at: &mut usize| -> Option<()> {
        let n = num(b, *at)?;
        *at += 8;
        for _ in 0..n.min(5000) {
            inf(b, *at)?;
            *at += 48;
        }
        Some(())
    };
    vec(&mut b, &mut at)?;
    vec(&mut b, &mut at)?;
    for _ in 0..3 {
        inf(&mut b, at)?;
        at += 48;
    }
    at += 32;
    for _ in 0..3 {
        let rows = num(&b, at)?;
        at += 8;
        for _ in 0..rows.min(5000) {
            at += 8 + 32 * num(&b, at)?.min(5000);
        }
    }
    for _ in 0..3 {
        at += 8 + 40 * num(&b, at)?.min(100_000);
    }
    for _ in 0..12 {
        inf(&mut b, at)?;
        at += 48;
    }
    at += 64;
    for _ in 0..2 {
        at += 8 + 32 * num(&b, at)?.min(5000);
    }
    at += 32;
    vec(&mut b, &mut at)?;
    vec(&mut b, &mut at)?;
    at += 64;
    inf(&mut b, at)?;
    Some(b)
}

fn args(p: Pair, r: &mut Rg, lie: bool) -> Vec<String> {
    if cir(p) == "mini" {
        let (x, y): (u64, u64) = match r.below(8) {
            // a default value is as good a statement as any
            6 | 7 => (0, r.below(9) as u64),
            0 => (r.u64() >> 33, r.u64() >> 34),
            1 => (1, u64::MAX - 2),
            2 => (*r.pick(&[0u64, 1, 2]), *r.pick(&[0u64, 1, 3, 1 << 32])),
            3 => (1 << 20, (1 << 43) - 2),
            _ => (r.below(50) as u64, r.below(5000) as u64),
        };
        let mut z = x * (y + 2);
        if lie {
            z = match r.below(5) {
                0 => z.wrapping_add(1),
                1 => z.wrapping_add(1 << 32),
                2 => z ^ 1 << 63,
                3 => z.wrapping_mul(10),
                _ => r.u64(),
            };
        }
        vec![x.to_string(), y.to_string(), z.to_string()]
    } else {
        let n = match r.below(6) {
            0 => 0,
            1 => *r.pick(&[31usize, 32, 33, 64, 65]),
            _ => r.range(1, 24),
        };
        let s: String = (0..n).map(|_| *r.pick(&['a', 'Z', '0', '-', '.', 'e', 'k', '_'])).collect();
        let s = if r.pct(10) { format!("{}é漢", s) } else { s };
        vec![s]
    }
}
fn fault(r: &mut Rg, name: &str, legal: bool) -> Vec<Fault> {
    let mut out = vec![];
    let n = if legal { r.range(1, 4) } else { r.range(1, 2) };
    for _ in 0..n {
        let k: &str = if legal {
            r.pick(&["short", "eintr"])
        } else {
            match name {
                "verify" => r.pick(&["flip", "flip", "eio", "short", "eintr", "crash", "nofd"]),
                _ => r.pick(&["crash", "crash", "tear", "tear", "enospc", "enospc", "lost", "lost", "eio", "flip", "nofd", "short", "eintr"]),
            }
        };
        out.push(Fault { kind: k.into(), at: r.below(4096) as u64, arg: r.below(1 << 22) as u64 });
    }
    out
}

pub struct Cli;
impl Check for Cli {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Thorough {
            20000
        } else {
            140
        }
    }
    fn plan(&self, seed: u64, k: u64, t: Tier) -> Value {
        let mut r = Rg::new(mix2(seed, k));
        let mut pairs: Vec<Pair> = vec![];
        let n = r.range(1, 2);
        while pairs.len() < n {
            let mut p: Pair = (r.below(4) as u8, if r.pct(14) { 1 } else { 0 });
            // these two take seconds per step
            if heavy(p) && !(t == Tier::Thorough && r.pct(15)) {
                p = (if r.pct(50) { 0 } else { 2 }, 1);
            }
            if !pairs.contains(&p) {
                pairs.push(p)
            }
        }
        // the slow ones once in a while
        if k % 500 == 3 {
            pairs = vec![(1, 1)];
        }
        if k % 500 == 4 {
            pairs = vec![(3, 1)];
        }
        let slow = pairs.iter().any(|p| heavy(*p));
        if slow && t == Tier::Quick {
            let a = pairs.iter().map(|p| args(*p, &mut r, false)).collect();
            return serde_json::to_value(Plan { pairs, steps: vec![], fin: r.seed(), args: a }).unwrap();
        }
        let mut steps = vec![];
        let fair = r.pct(15);
        for p in &pairs {
            steps.push(Step::Setup { p: *p, seed: r.seed(), faults: vec![] });
            steps.push(Step::Prove { p: *p, args: args(*p, &mut r, false), seed: r.seed(), faults: vec![] });
            steps.push(Step::Verify { p: *p, faults: vec![] });
        }
        let m = if slow { r.range(1, 3) } else { r.range(4, 16) };
        for _ in 0..m {
            let p = *r.pick(&pairs);
            let q = *r.pick(&pairs);
            let at = steps.len();
            let fs = |r: &mut Rg, name: &str| {
                if fair {
                    if r.pct(60) {
                        fault(r, name, true)
                    } else {
                        vec![]
                    }
                } else if r.pct(45) {
                    fault(r, name, false)
                } else {
                    vec![]
                }
            };
            match if fair { r.below(35) } else { r.below(100) } {
                0..=9 => {
                    let f = fs(&mut r, "setup");
                    steps.push(Step::Setup { p, seed: r.seed(), faults: f })
                }
                10..=24 => {
                    let lie = r.pct(30);
                    let f = fs(&mut r, "prove");
                    steps.push(Step::Prove { p, args: args(p, &mut r, lie), seed: r.seed(), faults: f })
                }
                25..=34 => {
                    let f = fs(&mut r, "verify");
                    steps.push(Step::Verify { p, faults: f });
                    continue;
                }
                35..=44 => {
                    if r.pct(60) {
                        steps.push(if r.pct(40) {
                            Step::Setup { p, seed: r.seed(), faults: vec![] }
                        } else {
                            Step::Prove { p, args: args(p, &mut r, false), seed: r.seed(), faults: vec![] }
                        })
                    }
                    steps.push(Step::Power { seed: r.seed() })
                }
                45..=59 => {
                    let kind = *r.pick(&["flip", "byte", "digit", "zero", "zero", "truncate", "extend", "repeat", "delete"]);
                    steps.push(Step::Damage { p, file: r.below(3) as u8, kind: kind.into(), a: r.below(1 << 30) as u64, b: r.below(1 << 20) as u64 })
                }
                60..=69 => steps.push(Step::Stale { p, file: r.below(3) as u8, back: r.below(4) as u64 }),
                70..=77 => steps.push(Step::Swap { p, q, file: r.below(3) as u8 }),
                _ => {
                    let kind = *r.pick(&[
                        "number", "number", "number", "number", "no params", "params away", "plain number", "two params", "other statement", "other statement",
                        "other proof", "other proof", "other scheme", "other circuit", "other curve", "proof bit", "proof bit", "proof short", "proof gone", "proof zero",
                        "proof nothing", "renamed", "own circuit", "own generators",
                    ]);
                    steps.push(Step::Edit { p, kind: kind.into(), a: r.below(1 << 30) as u64 })
                }
            }
            if r.pct(75) {
                steps.push(Step::Verify { p, faults: vec![] });
            }
            // what was damaged is often put right again, so that the next fault meets a working system
            if r.pct(60) {
                match steps[at].clone() {
                    Step::Damage { p, file, .. } => steps.push(Step::Stale { p, file, back: 0 }),
                    Step::Edit { p, .. } => steps.push(Step::Stale { p, file: 2, back: 0 }),
                    Step::Swap { p, q, file } => steps.push(Step::Swap { p, q, file }),
                    _ => {}
                }
            }
        }
        let a = pairs.iter().map(|p| args(*p, &mut r, false)).collect();
        serde_json::to_value(Plan { pairs, steps, fin: r.seed(), args: a }).unwrap()
    }
    fn exec(&self, plan: &Value, st: &mut Stats) -> Result<(), Viol> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = std::env::temp_dir().join(format!("dst-cli-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch");
        let scratch = Scratch(dir.clone());
        let mut w = World { dir, st, real: vec![], keys: Default::default(), past: Default::default(), before: Default::default(), touched: Default::default(), swapped: false, verify_wrote: false };
        for q in &p.pairs {
            w.st.inc(&format!("sys.{} {}", sch(*q), cir(*q)));
        }
        // as long as only legal perturbations happen, everything has to work
        let mut clean = true;
        let mut made: BTreeMap<Pair, (bool, bool)> = Default::default();
        for s in &p.steps {
            let legal = |fs: &Vec<Fault>| fs.iter().all(|f| f.kind == "short" || f.kind == "eintr");
            match s {
                Step::Setup { p, seed, faults } => {
                    w.st.inc("event.setup");
                    clean &= legal(faults);
                    if sch(*p) == "bulletproofs" {
                        made.insert(*p, (true, false));
                        continue;
                    }
                    let ok = w.setup(*p, *seed, faults)?;
                    if clean && !ok {
                        return viol("setup fails", format!("setup {} {} fails without any fault", sch(*p), cir(*p)));
                    }
                    made.insert(*p, (true, false));
                }
                Step::Prove { p, args, seed, faults } => {
                    w.st.inc("event.prove");
                    clean &= legal(faults);
                    let truth = asked(*p, args).map(|x| x.1) == Some(true);
                    let ok = w.prove(*p, args, *seed, faults)?;
                    if clean && truth && made.contains_key(p) {
                        if !ok {
                            return viol("prove fails", format!("zkp-prove {} {} {:?} fails without any fault", sch(*p), cir(*p), args));
                        }
                    }
                    if let Some(m) = made.get_mut(p) {
                        m.1 = ok && truth
                    }
                }
                Step::Verify { p, faults } => {
                    w.st.inc("event.verify");
                    let fair = legal(faults);
                    let yes = w.verify(*p, faults)?;
                    if clean && fair && made.get(p) == Some(&(true, true)) && !yes {
                        return viol("a true statement is refused", format!("setup, prove and verify of {} {} ran without any fault and zkp-verify does not report true", sch(*p), cir(*p)));
                    }
                }
                Step::Power { seed } => {
                    clean = false;
                    w.power(*seed)
                }
                Step::Damage { p, file: f, kind, a, b } => {
                    clean = false;
                    w.damage(&file(*p, *f), kind, *a, *b)
                }
                Step::Stale { p, file: f, back } => {
                    clean = false;
                    let f = file(*p, *f);
                    if let Some(v) = w.past.get(&f).filter(|v| !v.is_empty()) {
                        let b = v[v.len() - 1 - (*back as usize % v.len())].clone();
                        w.st.inc("fault.stale file");
                        put(&w.dir, &f, Some(&b))
                    }
                }
                Step::Swap { p, q, file: f } => {
                    clean = false;
                    let (a, b) = (file(*p, *f), file(*q, *f));
                    let (x, y) = (w.has(&a), w.has(&b));
                    if a != b {
                        w.st.inc("fault.swapped files");
                        w.swapped |= *f < 2;
                        put(&w.dir, &a, y.as_ref());
                        put(&w.dir, &b, x.as_ref());
                    }
                }
                Step::Edit { p, kind, a } => {
                    clean = false;
                    w.edit(*p, kind, *a)
                }
            }
        }
        // the faults stop: the three tools in order work again, whatever the files look like now
        for (i, q) in p.pairs.iter().enumerate() {
            if sch(*q) != "bulletproofs" && !w.setup(*q, mix2(p.fin, i as u64) >> 16, &[])? {
                return viol("setup fails", format!("after the faults stopped, setup {} {} fails", sch(*q), cir(*q)));
            }
            let a = &p.args[i % p.args.len()];
            if !w.prove(*q, a, mix2(p.fin, 77 + i as u64) >> 16, &[])? {
                return viol("prove fails", format!("after the faults stopped, zkp-prove {} {} {:?} fails", sch(*q), cir(*q), a));
            }
            w.st.inc("event.recovered");
            if !w.verify(*q, &[])? {
                return viol("a true statement is refused", format!("after the faults stopped, setup, prove and verify of {} {} {:?} do not report true", sch(*q), cir(*q), a));
            }
        }
        drop(scratch);
        Ok(())
    }
    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).expect("plan");
        let mut out = vec![];
        let n = p.steps.len();
        let mut push = |q: Plan| out.push(serde_json::to_value(q).unwrap());
        if n > 3 {
            push(Plan { steps: p.steps[..n / 2].to_vec(), ..p.clone() });
            push(Plan { steps: p.steps[n / 2..].to_vec(), ..p.clone() });
        }
        for i in (0..n).rev() {
            let mut q = p.clone();
            q.steps.remove(i);
            push(q);
        }
        if p.pairs.len() > 1 {
            for i in 0..p.pairs.len() {
                let mut q = p.clone();
                q.pairs = vec![p.pairs[i]];
                q.args = vec![p.args[i].clone()];
                push(q);
            }
        }
        for i in 0..n {
            let mut q = p.clone();
            match &mut q.steps[i] {
                Step::Setup { faults, .. } | Step::Prove { faults, .. } | Step::Verify { faults, .. } if !faults.is_empty() => {
                    faults.pop();
                }
                _ => continue,
            }
            push(q);
        }
        out
    }
    fn rule(&self) -> String {
        "one run = one history of setup, zkp-prove and zkp-verify processes in one working directory, with seeded crashes, torn, lost, short and failing writes and reads, full disks, power losses, damage at rest, stale and swapped files and edited proof files, then one undisturbed pass; distinct = different execution traces".into()
    }
    fn components(&self) -> Value {
        json!({"real": "the binaries setup, zkp-prove and zkp-verify, compiled from /repo/cli/src, with every library they link", "simulated": "libc's file operations and getrandom (a shim loaded under the tools), power loss, damage at rest", "stub": "none"})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "key files suffer storage faults, not forgery: who may write another party's verify key can set it up himself".into(),
            "a hash statement longer than 32 bytes shows the image in its first 32 bytes".into(),
            "the hash circuit itself (one MiMC block, free chaining value) is judged by C17".into(),
        ]
    }
}
