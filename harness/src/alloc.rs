//! Counts what the code under test allocates, when asked to, on this thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

#[global_allocator]
static COUNTING: Counting = Counting;

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
	static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn count(n: usize) {
	if ON.get() {
		TOTAL.set(TOTAL.get().saturating_add(n as u64));
		CALLS.set(CALLS.get() + 1);
	}
}

// everything is passed on
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		count(l.size());
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		count(l.size());
		System.alloc_zeroed(l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		count(n);
		System.realloc(p, l, n)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		System.dealloc(p, l);
	}
}

struct Off;

impl Drop for Off {
	fn drop(&mut self) {
		ON.set(false);
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Allocated {
	pub bytes: u64,
	pub calls: u64,
}

/// What `f` allocates, whether or not it frees it again
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Allocated) {
	TOTAL.set(0);
	CALLS.set(0);
	ON.set(true);
	let off = Off;
	let v = f();
	drop(off);
	let a = Allocated {
		bytes: TOTAL.get(),
		calls: CALLS.get(),
	};
	(v, a)
}
