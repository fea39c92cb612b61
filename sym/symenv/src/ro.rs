//! A hash function of `N` output bytes modelled as a random oracle (an uninterpreted function).
use digest::{
    generic_array::{ArrayLength, GenericArray},
    FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
};

pub const CAP: usize = 3300;
pub const FID: u32 = 1;

/// Random oracle with output size `N`.  Records its input and queries the environment on finalisation.
#[derive(Clone)]
pub struct Ro<N: ArrayLength<u8> + 'static, const MODE: u32 = 0> {
    buf: [u8; CAP],
    len: usize,
    _n: core::marker::PhantomData<N>,
}
impl<N: ArrayLength<u8>, const MODE: u32> Default for Ro<N, MODE> {
    fn default() -> Self {
        Ro { buf: [0; CAP], len: 0, _n: core::marker::PhantomData }
    }
}
impl<N: ArrayLength<u8>, const MODE: u32> HashMarker for Ro<N, MODE> {}
impl<N: ArrayLength<u8>, const MODE: u32> OutputSizeUser for Ro<N, MODE> {
    type OutputSize = N;
}
impl<N: ArrayLength<u8>, const MODE: u32> Update for Ro<N, MODE> {
    fn update(&mut self, data: &[u8]) {
        if self.len + data.len() > CAP {
            crate::unsupported("random oracle input above its capacity");
            return;
        }
        self.buf[self.len..self.len + data.len()].copy_from_slice(data);
        self.len += data.len();
    }
}
impl<N: ArrayLength<u8>, const MODE: u32> FixedOutput for Ro<N, MODE> {
    fn finalize_into(self, out: &mut Output<Self>) {
        ask(MODE, &self.buf[..self.len], out)
    }
}
impl<N: ArrayLength<u8>, const MODE: u32> Reset for Ro<N, MODE> {
    fn reset(&mut self) {
        self.len = 0;
    }
}
impl<N: ArrayLength<u8>, const MODE: u32> FixedOutputReset for Ro<N, MODE> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        ask(MODE, &self.buf[..self.len], out);
        self.len = 0;
    }
}
/// the value is collision-free
pub const INJ: u32 = 1;
/// only inputs of 3 and 34 bytes get a full-size value, all others one of two significant bytes
pub const SHORT: u32 = 2;

fn ask(mode: u32, i: &[u8], o: &mut [u8]) {
    if mode & SHORT != 0 && i.len() != 3 && i.len() != 34 {
        let n = o.len() - 2;
        o[..n].fill(0);
        crate::uf(FID, i, &mut o[n..]);
    } else if mode & INJ != 0 {
        crate::uf_inj(FID, i, o)
    } else {
        crate::uf(FID, i, o)
    }
}
/// The value of an oracle of mode `MODE` on the concatenation of `parts`.
pub fn hash_as<const MODE: u32>(parts: &[&[u8]], out: &mut [u8]) {
    let mut buf = [0u8; CAP];
    let mut n = 0;
    for p in parts {
        buf[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    ask(MODE, &buf[..n], out)
}
/// The oracle's value on the concatenation of `parts`, for reference computations in a harness.
pub fn hash(parts: &[&[u8]], out: &mut [u8]) {
    let mut buf = [0u8; CAP];
    let mut n = 0;
    for p in parts {
        buf[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    crate::uf(FID, &buf[..n], out)
}
pub type Arr<N> = GenericArray<u8, N>;
