#![allow(deprecated)]
//! Blake2s that reports every absorbed message and every derived seed to the transcript tap.
use blake2::Blake2s;
use digest::{consts::U32, generic_array::GenericArray, Digest, FixedOutput, Reset, Update};

#[derive(Clone, Default)]
pub struct TapDigest {
    buf: Vec<u8>,
}
impl Update for TapDigest {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(data.as_ref());
    }
}
impl Reset for TapDigest {
    fn reset(&mut self) {
        self.buf.clear();
    }
}
impl FixedOutput for TapDigest {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        let m = merlin::tap::filter(&self.buf);
        let m = m.as_deref().unwrap_or(&self.buf);
        merlin::tap::append(b"digest", m);
        let mut d = <Blake2s as Digest>::digest(m);
        merlin::tap::answer(&mut d);
        merlin::tap::challenge(b"digest", &d);
        out.copy_from_slice(&d);
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) {
        self.clone().finalize_into(out);
        self.buf.clear();
    }
}
