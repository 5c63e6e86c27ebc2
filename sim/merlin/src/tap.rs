//! Thread-local recorder of transcript events (simulator seam).
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Append { label: Vec<u8>, len: usize, digest: u64, bytes: Vec<u8> },
    Challenge { label: Vec<u8>, value: Vec<u8> },
}

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
}

/// Start recording on this thread.
pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
}
/// Stop recording and take the log.
pub fn take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
thread_local! {
    static SUBST: RefCell<Vec<(Vec<u8>, Vec<u8>, u64)>> = const { RefCell::new(Vec::new()) };
}
/// From now on every absorbed occurrence of `from` is replaced by `to` (same length): a prover
/// that sends `to` where it computed `from`, and derives its later messages consistently.
pub fn substitute(subst: &[(Vec<u8>, Vec<u8>)]) {
    SUBST.with(|s| {
        *s.borrow_mut() = subst.iter().filter(|(a, b)| a.len() == b.len() && !a.is_empty()).map(|(a, b)| (a.clone(), b.clone(), 0)).collect()
    });
}
/// Stop substituting; how often each pattern was hit.
pub fn substituted() -> Vec<u64> {
    SUBST.with(|s| s.borrow_mut().drain(..).map(|x| x.2).collect())
}
/// What is really absorbed.
pub fn filter(m: &[u8]) -> Option<Vec<u8>> {
    SUBST.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            return None;
        }
        let mut out: Option<Vec<u8>> = None;
        for (from, to, hits) in s.iter_mut() {
            let n = from.len();
            if m.len() < n {
                continue;
            }
            let mut i = 0;
            while i + n <= m.len() {
                if m[i..i + n] == from[..] {
                    let o = out.get_or_insert_with(|| m.to_vec());
                    o[i..i + n].copy_from_slice(to);
                    *hits += 1;
                    i += n;
                } else {
                    i += 1;
                }
            }
        }
        out
    })
}
pub fn append(label: &[u8], m: &[u8]) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(Event::Append {
                label: label.to_vec(),
                len: m.len(),
                digest: fnv(m),
                bytes: m.to_vec(),
            })
        }
    });
}
pub fn challenge(label: &[u8], d: &[u8]) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(Event::Challenge { label: label.to_vec(), value: d.to_vec() })
        }
    });
}

/// What happens to the challenges drawn on this thread (a programmable random oracle).
#[derive(Clone, Debug)]
pub enum Oracle {
    /// challenges number `n` and later differ in their lowest bit from what the transcript gives
    Alter(usize),
    /// the n-th challenge is the n-th given value, while the lengths agree
    Pin(Vec<Vec<u8>>),
    /// as `Pin`, but these challenges differ from it in their lowest bit
    PinBut(Vec<Vec<u8>>, Vec<usize>),
}
thread_local! {
    static ORACLE: RefCell<(Option<Oracle>, usize)> = const { RefCell::new((None, 0)) };
}
/// Program the challenges drawn from now on (None: the real ones).
pub fn oracle(o: Option<Oracle>) {
    ORACLE.with(|x| *x.borrow_mut() = (o, 0));
}
/// How many challenges were drawn since.
pub fn drawn() -> usize {
    ORACLE.with(|x| x.borrow().1)
}
pub fn answer(d: &mut [u8]) {
    ORACLE.with(|x| {
        let mut x = x.borrow_mut();
        let n = x.1;
        x.1 += 1;
        match &x.0 {
            Some(Oracle::Alter(k)) if n >= *k && !d.is_empty() => d[0] ^= 1,
            Some(Oracle::Pin(v)) | Some(Oracle::PinBut(v, _)) => {
                if let Some(p) = v.get(n) {
                    if p.len() == d.len() {
                        d.copy_from_slice(p);
                    }
                }
            }
            _ => {}
        }
        if let Some(Oracle::PinBut(_, b)) = &x.0 {
            if b.contains(&n) && !d.is_empty() {
                d[0] ^= 1;
            }
        }
    })
}
