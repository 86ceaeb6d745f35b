//! Counting allocator.  Requests far beyond anything a run legitimately needs
//! park the run's thread for good, so the driver can classify the run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

pub const OVERSIZE: usize = 64 << 20;

pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// a run asked for this many bytes at once
pub static ASKED: AtomicUsize = AtomicUsize::new(0);
pub static GUARD: AtomicBool = AtomicBool::new(false);
pub static WAKE: (Mutex<u32>, Condvar) = (Mutex::new(0), Condvar::new());

thread_local! {
	/// this thread belongs to a run
	pub static RUN: Cell<bool> = const { Cell::new(false) };
}

pub struct A;

fn big(n: usize) {
	if n >= OVERSIZE && GUARD.load(SeqCst) && RUN.try_with(|r| r.get()).unwrap_or(false) {
		ASKED.store(n, SeqCst);
		*WAKE.0.lock().unwrap_or_else(|e| e.into_inner()) = 2;
		WAKE.1.notify_all();
		loop {
			std::thread::park();
		}
	}
}
fn add(n: usize) {
	let c = CUR.fetch_add(n, SeqCst) + n;
	PEAK.fetch_max(c, SeqCst);
}
fn sub(n: usize) {
	CUR.fetch_sub(n, SeqCst);
}

// SAFETY: defers to the system allocator.
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		big(l.size());
		add(l.size());
		unsafe { System.alloc(l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		big(l.size());
		add(l.size());
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		sub(l.size());
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		big(n);
		add(n);
		sub(l.size());
		unsafe { System.realloc(p, l, n) }
	}
}

/// Peak of live bytes above the level at the start of `f`.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
	let base = CUR.load(SeqCst);
	PEAK.store(base, SeqCst);
	let r = f();
	let p = PEAK.load(SeqCst);
	(r, p.saturating_sub(base))
}
