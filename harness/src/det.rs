//! Determinism: a run is a function of the code and of VERIF_SEED only.
//!
//! * `getrandom` is overridden, so that on a thread which asked for it the
//!   hasher keys of `HashMap` (and uuids) come from the case's own seed:
//!   iteration order of the hash maps inside astro-run becomes part of the
//!   generated case, and replays exactly.
//! * every case runs on a fresh thread, with a fresh single-threaded tokio
//!   runtime whose clock is virtual and whose `select!` choices are seeded.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::sync::mpsc;
use std::time::Duration;

thread_local! {
  static RNG: Cell<u64> = const { Cell::new(0) };
  static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn next(state: &mut u64) -> u64 {
  // splitmix64
  *state = state.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *state;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

/// # Safety
/// Same contract as getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(
  buf: *mut libc::c_void,
  len: libc::size_t,
  flags: libc::c_uint,
) -> libc::ssize_t {
  let state = RNG.try_with(|r| r.get()).unwrap_or(0);
  if state == 0 {
    return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
  }
  let mut state = state;
  let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
  for chunk in out.chunks_mut(8) {
    let v = next(&mut state).to_le_bytes();
    chunk.copy_from_slice(&v[..chunk.len()]);
  }
  let _ = RNG.try_with(|r| r.set(state | 1));
  len as libc::ssize_t
}

pub fn install_panic_hook(verbose: bool) {
  std::panic::set_hook(Box::new(move |info| {
    let msg = info.to_string();
    if verbose {
      eprintln!("[panic] {}", msg);
    }
    let _ = PANICS.try_with(|p| p.borrow_mut().push(msg));
  }));
}

pub fn take_panics() -> Vec<String> {
  PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Runs `f` on a fresh thread whose randomness is a function of `seed`.
/// A panic on that thread (also one caught by a task of a single-threaded
/// runtime) is returned as an error.
pub fn on_fresh_thread<R: Send + 'static>(
  seed: u64,
  limit: Duration,
  f: impl FnOnce() -> R + Send + 'static,
) -> Result<R, String> {
  let (tx, rx) = mpsc::channel();
  let handle = std::thread::Builder::new()
    .name("case".into())
    .stack_size(8 << 20)
    .spawn(move || {
      RNG.with(|r| r.set(seed | 1));
      let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
      let panics = take_panics();
      let _ = tx.send((res.ok(), panics));
    })
    .expect("spawn case thread");

  match rx.recv_timeout(limit) {
    Ok((res, panics)) => {
      let _ = handle.join();
      if !panics.is_empty() {
        return Err(format!("panicked: {}", panics.join(" | ")));
      }
      res.ok_or_else(|| "panicked".to_string())
    }
    Err(_) => {
      // Not a verdict: a case must never take this long.
      eprintln!("ERROR: a case exceeded its wall-clock limit of {:?}", limit);
      println!("ERROR: a case exceeded its wall-clock limit of {:?}", limit);
      std::process::exit(3);
    }
  }
}

/// Block on a future with a virtual clock and seeded scheduler choices.
pub fn block_on_virtual<F: Future>(seed: u64, fut: F) -> F::Output {
  let rt = tokio::runtime::Builder::new_current_thread()
    .enable_time()
    .start_paused(true)
    .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
    .build()
    .expect("runtime");
  rt.block_on(fut)
}

/// FNV-1a, used to count distinct cases (independent of hasher keys).
pub fn hash_str(s: &str) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.as_bytes() {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

/// Block on a future with the real clock and sockets, on this thread only.
#[allow(dead_code)]
pub fn block_on_real<F: Future>(seed: u64, fut: F) -> F::Output {
  let rt = tokio::runtime::Builder::new_current_thread()
    .enable_all()
    .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
    .build()
    .expect("runtime");
  rt.block_on(fut)
}
