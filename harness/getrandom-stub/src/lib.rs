//! Deterministic, observable stand-in for the `getrandom` crate, used only by the harness.
//! Every thread has its own stream (SplitMix64 over a seed the harness sets); draws are counted.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { NonZeroU32::new_unchecked(0x8000_0000) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom stub error {}", self.0) }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Error(c) } }
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) };
}
thread_local! {
    static MINE: Cell<u64> = const { Cell::new(0) };
}
/// Bytes handed out to this thread.
pub fn stub_thread_bytes() -> u64 { MINE.with(|c| c.get()) }
static DRAWN: AtomicU64 = AtomicU64::new(0);

/// Set this thread's entropy stream.
pub fn stub_set_thread_seed(s: u64) { STATE.with(|c| c.set(s)); }
/// Bytes of OS entropy handed out so far, over all threads.
pub fn stub_bytes_drawn() -> u64 { DRAWN.load(Ordering::Relaxed) }

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    DRAWN.fetch_add(dest.len() as u64, Ordering::Relaxed);
    MINE.with(|c| c.set(c.get() + dest.len() as u64));
    STATE.with(|c| {
        let mut s = c.get();
        for ch in dest.chunks_mut(8) {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^= z >> 31;
            let b = z.to_le_bytes();
            let n = ch.len();
            ch.copy_from_slice(&b[..n]);
        }
        c.set(s);
    });
    Ok(())
}
pub fn getrandom_uninit(dest: &mut [std::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() { b.write(0); }
    let s = unsafe { std::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(s)?;
    Ok(s)
}
