//! Seeded generators, panic capture, hashing.
use rand::{CryptoRng, RngCore};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(17))
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn hstr(s: &str) -> u64 {
    fnv(s.as_bytes())
}

/// Plan generator: splitmix64.
#[derive(Clone, Debug)]
pub struct Rg(pub u64);
impl Rg {
    pub fn new(s: u64) -> Self {
        Rg(mix(s))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// JSON numbers stay exact below 2^53
    pub fn seed(&mut self) -> u64 {
        self.u64() >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.u64() % 100 < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// The random stream handed to the code under test.  `draws` counts bytes,
/// `tweak` flips the lowest bit of one 8-byte word (for entropy-dependence experiments).
#[derive(Clone, Debug)]
pub struct SimRng {
    s: Rg,
    pub calls: u64,
    pub bytes: u64,
    pub tweak: Option<u64>,
    /// ask for the prover without zero knowledge, where a scheme has one
    pub plain: bool,
    /// every word handed out (when recording)
    pub log: Option<Vec<u64>>,
    /// the stream is another one once more than this many challenges were drawn
    pub after: Option<usize>,
}
impl SimRng {
    pub fn new(seed: u64) -> Self {
        SimRng { s: Rg::new(seed ^ 0x5349_4d52_4e47), calls: 0, bytes: 0, tweak: None, plain: false, log: None, after: None }
    }
    fn word(&mut self) -> u64 {
        let mut w = self.s.u64();
        if self.tweak == Some(self.bytes / 8) {
            w ^= 1;
        }
        if let Some(n) = self.after {
            if merlin::tap::drawn() > n {
                w = mix(w ^ 0x6166_7465_72);
            }
        }
        self.bytes += 8;
        if let Some(l) = self.log.as_mut() {
            l.push(w);
        }
        w
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.calls += 1;
        self.word()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.calls += 1;
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for SimRng {}

// ---- panic capture ------------------------------------------------------
thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) > 0 {
            let loc = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let msg: String = msg.chars().take(160).collect();
            LAST.with(|l| *l.borrow_mut() = format!("{} [{}]", loc, msg.replace('\n', " ")));
        } else {
            old(i)
        }
    }));
}
/// Run `f`; a panic becomes Err("file:line [message]").
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// file (without line) of a captured panic: a stable call-site label
pub fn panic_site(p: &str) -> String {
    let f = p.split(' ').next().unwrap_or("");
    let f = f.rsplit_once(':').map(|x| x.0).unwrap_or(f);
    f.trim_start_matches("/repo/").to_string()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
