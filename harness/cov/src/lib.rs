//! What the instrumentation that `tools/rustc-cov` puts into libmbus
//! reports: which edges were taken, and how comparisons came out. The
//! records are kept for each thread, and only while that thread asks for them.
//! This crate is not instrumented itself.

use std::cell::{Cell, UnsafeCell};

pub const FEATURES: usize = 1 << 17;
/// Edges take the lower half of the features, comparisons the upper
const HALF: u32 = (FEATURES / 2) as u32;
const PAIRS: usize = 1024;

/// Operands that were compared and were not equal
#[derive(Clone, Copy)]
pub struct Pair {
	pub a: u64,
	pub b: u64,
	pub width: u8,
	/// `a` is a constant
	pub constant: bool,
	/// Stands for the place
	pub site: u32,
}

struct State {
	count: [u8; FEATURES],
	touched: Vec<u32>,
	pairs: [Pair; PAIRS],
	npairs: usize,
	last: u32,
}

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static COMPARE: Cell<bool> = const { Cell::new(false) };
	static ARMED: Cell<bool> = const { Cell::new(false) };
	static COUNTING: Cell<bool> = const { Cell::new(false) };
	static TAKEN: Cell<u64> = const { Cell::new(0) };
	static STATE: UnsafeCell<State> = const {
		UnsafeCell::new(State {
			count: [0; FEATURES],
			touched: Vec::new(),
			pairs: [Pair { a: 0, b: 0, width: 0, constant: false, site: 0 }; PAIRS],
			npairs: 0,
			last: 0,
		})
	};
}

#[inline]
fn touch(s: &mut State, f: u32) {
	let c = &mut s.count[f as usize];
	if *c == 0 {
		s.touched.push(f);
	}
	*c = c.saturating_add(1);
}

/// Record what happens `within` on this thread from now on. Comparisons are many,
/// and so left out if not wanted.
pub fn start(compare: bool) {
	ARMED.set(true);
	COMPARE.set(compare);
}

struct Recording;

impl Drop for Recording {
	fn drop(&mut self) {
		ON.set(false);
	}
}

/// Something to be recorded
pub fn within<T>(f: impl FnOnce() -> T) -> T {
	if !ARMED.get() && !COUNTING.get() {
		return f();
	}
	ON.set(true);
	let _recording = Recording;
	f()
}

/// How many edges are taken in what `f` does `within`. None if there is no
/// instrumentation.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Option<u64>) {
	if !present() {
		return (f(), None);
	}
	TAKEN.set(0);
	COUNTING.set(true);
	let v = f();
	COUNTING.set(false);
	(v, Some(TAKEN.get()))
}

/// How often a feature occurred, in classes
fn class(n: u8) -> u8 {
	match n {
		0 => 0,
		1 => 1,
		2 => 2,
		3 => 4,
		4..=7 => 8,
		8..=15 => 16,
		16..=31 => 32,
		32..=127 => 64,
		_ => 128,
	}
}

/// Stop, hand each feature and its class to `see`, each pair of unequal operands
/// to `pair`, and forget them
pub fn stop(mut see: impl FnMut(u32, u8), mut pair: impl FnMut(&Pair)) {
	ARMED.set(false);
	COMPARE.set(false);
	STATE.with(|s| {
		// only this thread gets here, and not from a callback: recording is off
		let s = unsafe { &mut *s.get() };
		for f in std::mem::take(&mut s.touched) {
			see(f, class(s.count[f as usize]));
			s.count[f as usize] = 0;
		}
		for p in &s.pairs[..s.npairs.min(PAIRS)] {
			pair(p);
		}
		s.npairs = 0;
		s.last = 0;
	});
}

/// Whether there is any instrumentation in this program
pub fn present() -> bool {
	NEXT.load(std::sync::atomic::Ordering::Relaxed) > 1
}

static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

/// # Safety
/// Called by the instrumentation with the bounds of an array.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
	let mut p = start;
	while p < stop {
		if *p == 0 {
			*p = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
		}
		p = p.add(1);
	}
}

/// # Safety
/// Called by the instrumentation with one element of that array.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
	if COUNTING.get() && ON.get() {
		TAKEN.set(TAKEN.get() + 1);
	}
	if ON.get() && ARMED.get() {
		STATE.with(|s| {
			let s = unsafe { &mut *s.get() };
			s.last = *guard;
			touch(s, *guard % HALF);
		});
	}
}

/// Addresses differ from run to run
fn address(a: u64) -> bool {
	(0x5000_0000_0000..0x8000_0000_0000).contains(&a)
}

fn compare(a: u64, b: u64, width: u8, constant: bool) {
	if !COMPARE.get() || !ON.get() || (address(a) && address(b)) {
		return;
	}
	STATE.with(|s| {
		let s = unsafe { &mut *s.get() };
		// how far from equal, at this place
		let mut h = u64::from(s.last) << 8 | u64::from((a ^ b).count_ones()) << 1 | u64::from(constant);
		if constant {
			h ^= a << 32;
		}
		h = (h ^ (h >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		touch(s, HALF + (h >> 40) as u32 % HALF);
		if a != b && (a > 1 || b > 1) {
			s.pairs[s.npairs % PAIRS] = Pair { a, b, width, constant, site: s.last };
			s.npairs += 1;
		}
	});
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(a: u8, b: u8) {
	compare(a.into(), b.into(), 1, false);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(a: u16, b: u16) {
	compare(a.into(), b.into(), 2, false);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(a: u32, b: u32) {
	compare(a.into(), b.into(), 4, false);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) {
	compare(a, b, 8, false);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, b: u8) {
	compare(a.into(), b.into(), 1, true);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) {
	compare(a.into(), b.into(), 2, true);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) {
	compare(a.into(), b.into(), 4, true);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
	compare(a, b, 8, true);
}

/// # Safety
/// Called by the instrumentation: a count, a width, and that many case values.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(value: u64, cases: *const u64) {
	if !COMPARE.get() || !ON.get() {
		return;
	}
	let n = (*cases).min(64) as usize;
	let width = (*cases.add(1) / 8) as u8;
	for i in 0..n {
		compare(*cases.add(2 + i), value, width, true);
	}
}
