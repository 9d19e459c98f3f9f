//! Runs oracles over generated tapes or enumerated indices, in parallel and as
//! a pure function of the code and the seed; shrinks what fails; counts what was
//! generated.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

use proptest::prelude::RngExt;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
	Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner,
};

use crate::tape::Tape;

pub const THREADS: u64 = 8;

/// Cases that fail by taking long are not to be shrunk for ever
const SHRINK_FOR: std::time::Duration = std::time::Duration::from_secs(60);

/// What became of one case
pub struct Outcome {
	/// The concrete input the case came down to
	pub input: Vec<u8>,
	/// Whether the case exercises the property, by the sub-check's stated rule
	pub nontrivial: bool,
	pub tags: Vec<&'static str>,
	/// How many cases this was (more than one for a block of enumerated ones)
	pub cases: u64,
	/// Set if the property does not hold for this case
	pub fail: Option<String>,
}

impl Outcome {
	pub fn new(input: &[u8]) -> Self {
		Self {
			input: input.to_vec(),
			nontrivial: true,
			tags: Vec::new(),
			cases: 1,
			fail: None,
		}
	}
	/// A block of `n` cases, distinct from each other and from other blocks
	pub fn block(input: &[u8], n: u64) -> Self {
		Self {
			cases: n,
			..Self::new(input)
		}
	}
	pub fn tag(mut self, tag: &'static str) -> Self {
		self.tags.push(tag);
		self
	}
	pub fn nontrivial(mut self, yes: bool) -> Self {
		self.nontrivial = yes;
		self
	}
	pub fn fail(mut self, why: impl Into<String>) -> Self {
		self.fail = Some(why.into());
		self
	}
	pub fn verdict(mut self, why: Option<String>) -> Self {
		self.fail = why;
		self
	}
}

#[derive(Clone, Copy)]
pub enum Plan {
	/// Generated tapes of up to `tape` bytes
	Random {
		tape: usize,
		quick: u64,
		thorough: u64,
	},
	/// Every index below `count`; each case also gets a generated tail
	Enumerate { count: u64, tail: usize },
	/// Every index below `count` in the thorough tier, and in the quick tier
	/// `quick` of them, spread evenly with an offset chosen by the seed
	Stride { count: u64, tail: usize, quick: u64 },
}

#[derive(Clone, Copy)]
pub struct Sub {
	pub name: &'static str,
	pub plan: Plan,
	pub rule: &'static str,
	pub run: fn(&mut Tape) -> Outcome,
}

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub nontrivial: u64,
	pub distinct: HashSet<u64>,
	/// Distinct cases that came in blocks
	pub in_blocks: u64,
	pub tags: BTreeMap<&'static str, u64>,
	pub samples: Vec<String>,
	pub exhaustive: bool,
}

pub struct Found {
	pub tape: Vec<u8>,
	pub input: Vec<u8>,
	pub why: String,
}

// ---------------------------------------------------------------------------
// The strategy: a byte string, with shrinking that deletes and lowers bytes

#[derive(Debug, Clone)]
pub struct TapeStrategy {
	pub len: usize,
	/// Leading bytes that shrinking leaves alone
	pub prefix: Vec<u8>,
}

#[derive(Debug)]
pub struct TapeTree {
	best: Vec<u8>,
	current: Vec<u8>,
	keep: usize,
	/// Block size of deletions; 0 once they are through
	block: usize,
	at: usize,
	phase: u8,
	progress: bool,
}

impl TapeTree {
	fn new(data: Vec<u8>, keep: usize) -> Self {
		Self {
			block: ((data.len() - keep) / 2).max(1),
			at: keep,
			best: data.clone(),
			current: data,
			keep,
			phase: 0,
			progress: false,
		}
	}

	/// Look for simpler values that `fails` as well
	fn shrink(mut self, limit: usize, mut fails: impl FnMut(Vec<u8>) -> bool) {
		let mut more = self.simplify();
		let start = std::time::Instant::now();
		for _ in 0..limit {
			if !more || start.elapsed() > SHRINK_FOR {
				break;
			}
			more = if fails(self.current()) {
				self.simplify()
			} else {
				self.complicate()
			};
		}
	}

	fn next_candidate(&mut self) -> bool {
		loop {
			let n = self.best.len();
			match self.phase {
				// drop the tail or a block
				0 => {
					if self.block == 0 {
						self.phase = 1;
						self.at = self.keep;
						continue;
					}
					if self.at + self.block > n {
						self.block /= 2;
						self.at = self.keep;
						continue;
					}
					let mut c = self.best.clone();
					c.drain(self.at..self.at + self.block);
					self.at += self.block;
					self.current = c;
					return true;
				}
				// lower single bytes
				1..=4 => {
					if self.at >= n {
						self.at = self.keep;
						self.phase += 1;
						continue;
					}
					let b = self.best[self.at];
					let lower = match self.phase {
						1 => 0,
						2 => b / 2,
						3 => b & (b.wrapping_sub(1)),
						_ => b.saturating_sub(1),
					};
					let at = self.at;
					self.at += 1;
					if lower == b {
						continue;
					}
					let mut c = self.best.clone();
					c[at] = lower;
					self.current = c;
					return true;
				}
				_ => {
					if self.progress {
						self.progress = false;
						self.phase = 0;
						self.block = ((n - self.keep) / 2).max(1);
						self.at = self.keep;
						continue;
					}
					self.current = self.best.clone();
					return false;
				}
			}
		}
	}
}

impl ValueTree for TapeTree {
	type Value = Vec<u8>;
	fn current(&self) -> Vec<u8> {
		self.current.clone()
	}
	/// The current value fails: keep it and try a simpler one
	fn simplify(&mut self) -> bool {
		if self.current.len() < self.best.len() || self.current != self.best {
			// a deletion at `at` moved the following bytes down
			if self.current.len() < self.best.len() {
				self.at = self.at.saturating_sub(self.best.len() - self.current.len());
			}
			self.best = self.current.clone();
			self.progress = true;
		}
		self.next_candidate()
	}
	/// The current value passes: go back and try another
	fn complicate(&mut self) -> bool {
		self.next_candidate()
	}
}

impl Strategy for TapeStrategy {
	type Tree = TapeTree;
	type Value = Vec<u8>;
	fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
		let keep = self.prefix.len();
		let mut data = vec![0; keep + self.len];
		data[..keep].copy_from_slice(&self.prefix);
		runner.rng().fill(&mut data[keep..]);
		Ok(TapeTree::new(data, keep))
	}
}

// ---------------------------------------------------------------------------
// Panics inside the harness (as opposed to inside the code under test, which
// `obs` catches itself)

thread_local! {
	pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let text = info.to_string();
		LAST_PANIC.with(|p| {
			if let Ok(mut p) = p.try_borrow_mut() {
				*p = text;
			}
		});
	}));
}

pub fn last_panic() -> String {
	LAST_PANIC.with(|p| p.borrow().clone())
}

struct Discarded;

/// There is no case to be had from this tape
pub fn discard() -> ! {
	std::panic::panic_any(Discarded)
}

pub enum Crash {
	Harness(String),
}

fn fnv(data: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for chunk in data.chunks(8) {
		let mut b = [0; 8];
		b[..chunk.len()].copy_from_slice(chunk);
		h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		h ^= h >> 29;
	}
	h ^ (data.len() as u64) << 56
}

pub fn hex(data: &[u8]) -> String {
	data.iter().map(|b| format!("{b:02X}")).collect()
}

pub fn unhex(text: &str) -> Option<Vec<u8>> {
	let t: Vec<char> = text.chars().filter(|c| !c.is_whitespace()).collect();
	t.chunks(2)
		.map(|c| u8::from_str_radix(&c.iter().collect::<String>(), 16).ok())
		.collect()
}

// ---------------------------------------------------------------------------
// Journal: the tape each thread is working on, so that a case that takes the
// whole process down can be found again

pub struct Journal {
	file: Option<File>,
	slot: u64,
	buf: RefCell<Vec<u8>>,
}

pub const SLOT: u64 = 8192;

impl Journal {
	pub fn new(path: Option<&str>, slot: u64) -> Self {
		Self {
			file: path.map(|p| {
				File::options()
					.write(true)
					.create(true)
					.truncate(false)
					.open(p)
					.expect("journal")
			}),
			slot,
			buf: RefCell::new(Vec::new()),
		}
	}
	pub fn note(&self, sub: usize, tape: &[u8]) {
		if let Some(f) = &self.file {
			let mut buf = self.buf.borrow_mut();
			buf.clear();
			buf.extend_from_slice(&(tape.len() as u32).to_le_bytes());
			buf.extend_from_slice(&(sub as u32).to_le_bytes());
			buf.extend_from_slice(tape);
			let _ = f.write_at(&buf, self.slot * SLOT);
		}
	}
}

pub fn read_journal(path: &str) -> Vec<(usize, Vec<u8>)> {
	let data = std::fs::read(path).unwrap_or_default();
	let mut out = Vec::new();
	for slot in data.chunks(SLOT as usize) {
		if slot.len() < 8 {
			continue;
		}
		let len = u32::from_le_bytes(slot[..4].try_into().unwrap()) as usize;
		let sub = u32::from_le_bytes(slot[4..8].try_into().unwrap()) as usize;
		if len > 0 && 8 + len <= slot.len() {
			out.push((sub, slot[8..8 + len].to_vec()));
		}
	}
	out
}

// ---------------------------------------------------------------------------

struct Shard<'a> {
	stats: RefCell<Stats>,
	journal: &'a Journal,
	sub: &'a Sub,
	sub_no: usize,
	keep: u64,
	property: &'a str,
}

impl Shard<'_> {
	/// Evaluate one tape; Err is a violation
	fn eval(&self, tape: &[u8]) -> Result<(), Outcome> {
		self.journal.note(self.sub_no, tape);
		let out = (self.sub.run)(&mut Tape::new(tape));
		let mut s = self.stats.borrow_mut();
		s.evaluations += out.cases;
		if out.nontrivial {
			let nth = s.nontrivial;
			s.nontrivial += out.cases;
			if out.cases == 1 {
				s.distinct.insert(fnv(&out.input));
			} else {
				s.in_blocks += out.cases;
			}
			if (s.samples.len() as u64) < self.keep && (nth == 0 || nth > 500) {
				let mut t = hex(&out.input);
				if t.len() > 200 {
					t.truncate(200);
					t.push_str("..");
				}
				s.samples.push(t);
			}
		}
		for t in &out.tags {
			*s.tags.entry(t).or_default() += out.cases;
		}
		if out.fail.is_some() {
			if crate::is_known(self.property, &out.input) {
				*s.tags.entry("known finding").or_default() += 1;
				return Ok(());
			}
			return Err(out);
		}
		Ok(())
	}
}

pub struct RunConfig<'a> {
	pub seed: u64,
	pub thorough: bool,
	/// divide the amount of random work by this (for smoke runs)
	pub scale: f64,
	pub journal: Option<&'a str>,
	pub property: &'a str,
	/// the coverage-guided stage (a program built with instrumentation)
	pub guided: bool,
}

fn seed_bytes(cfg: &RunConfig, sub: &str, shard: u64) -> [u8; 32] {
	let stage = if cfg.guided { "/guided" } else { "" };
	let text = format!("{}/{}/{}/{}{stage}", cfg.seed, cfg.property, sub, shard);
	let mut out = [0; 32];
	for i in 0..4u64 {
		let mut t = text.clone().into_bytes();
		t.push(i as u8);
		out[i as usize * 8..][..8].copy_from_slice(&fnv(&t).to_le_bytes());
	}
	out
}

/// Run one sub-check; `found` is None if the property held on everything explored.
/// Ok(None): there is nothing to do for the guided stage.
pub fn run_sub(
	cfg: &RunConfig,
	sub_no: usize,
	sub: &Sub,
) -> Result<Option<(Stats, Option<Found>)>, Crash> {
	let stop = Arc::new(AtomicBool::new(false));
	let (count, tape_len, step, offset, enumerated) = match sub.plan {
		Plan::Random {
			tape,
			quick,
			thorough,
		} => {
			let mut n = if cfg.thorough { thorough } else { quick * 5 / 2 };
			if cfg.guided {
				if n < GUIDED_FROM {
					return Ok(None);
				}
				n = n * GUIDED_SHARE / 100;
			}
			(
				((n as f64 * cfg.scale) as u64).max(THREADS),
				tape,
				1,
				0,
				false,
			)
		}
		_ if cfg.guided => return Ok(None),
		// thinned out in trial runs only
		Plan::Enumerate { count, tail } if cfg.scale < 0.5 && count > 150_000 => {
			let step = (count / 150_000).max(2) | 1;
			(count / step, tail, step, cfg.seed % step, true)
		}
		Plan::Enumerate { count, tail } => (count, tail, 1, 0, true),
		Plan::Stride { count, tail, quick } => {
			if cfg.thorough || quick >= count {
				(count, tail, 1, 0, true)
			} else {
				let step = (count / quick).max(1) | 1;
				(count / step, tail, step, cfg.seed % step, true)
			}
		}
	};
	let done = AtomicU64::new(0);
	let results: Vec<Result<(Stats, Option<Found>), Crash>> = std::thread::scope(|scope| {
		let handles: Vec<_> = (0..THREADS)
			.map(|shard| {
				let stop = stop.clone();
				let done = &done;
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(scope, move || {
						let r = catch_unwind(AssertUnwindSafe(|| {
							run_shard(
								cfg, sub_no, sub, shard, count, tape_len, step, offset, enumerated,
								&stop, done,
							)
						}));
						match r {
							Ok(x) => x,
							Err(_) => {
								stop.store(true, Ordering::Relaxed);
								Err(Crash::Harness(last_panic()))
							}
						}
					})
					.expect("thread")
			})
			.collect();
		handles.into_iter().map(|h| h.join().unwrap()).collect()
	});

	let mut total = Stats::default();
	let mut found: Option<Found> = None;
	let mut crash = None;
	for r in results {
		match r {
			Err(c) => crash = Some(c),
			Ok((s, f)) => {
				total.evaluations += s.evaluations;
				total.nontrivial += s.nontrivial;
				total.distinct.extend(s.distinct);
				total.in_blocks += s.in_blocks;
				for (k, v) in s.tags {
					*total.tags.entry(k).or_default() += v;
				}
				total.samples.extend(s.samples);
				if let Some(f) = f {
					let better = found.as_ref().is_none_or(|g| f.tape.len() < g.tape.len());
					if better {
						found = Some(f);
					}
				}
			}
		}
	}
	total.samples.truncate(6);
	total.exhaustive = enumerated && step == 1 && tape_len == 0 && found.is_none();
	// a violation found is a violation, whatever else happened
	match (found, crash) {
		(None, Some(c)) => Err(c),
		(f, _) => Ok(Some((total, f))),
	}
}

#[allow(clippy::too_many_arguments)]
fn run_shard(
	cfg: &RunConfig,
	sub_no: usize,
	sub: &Sub,
	shard: u64,
	count: u64,
	tape_len: usize,
	step: u64,
	offset: u64,
	enumerated: bool,
	stop: &AtomicBool,
	done: &AtomicU64,
) -> Result<(Stats, Option<Found>), Crash> {
	let journal = Journal::new(cfg.journal, shard);
	let sh = Shard {
		stats: RefCell::new(Stats::default()),
		journal: &journal,
		sub,
		sub_no,
		keep: 2,
		property: cfg.property,
	};
	let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(cfg, sub.name, shard));
	let cases = (count / THREADS + u64::from(shard < count % THREADS)) as u32;
	let config = Config {
		cases,
		failure_persistence: None,
		max_shrink_iters: 20_000,
		max_shrink_time: SHRINK_FOR.as_millis() as u32,
		max_global_rejects: 0,
		rng_algorithm: RngAlgorithm::ChaCha,
		rng_seed: RngSeed::Fixed(cfg.seed),
		..Config::default()
	};
	let mut runner = TestRunner::new_with_rng(config, rng);
	let failing: RefCell<Option<Found>> = RefCell::new(None);
	let harness_panic: RefCell<Option<String>> = RefCell::new(None);

	let eval = |tape: Vec<u8>| -> Result<(), TestCaseError> {
		let mine = failing.borrow().is_some();
		if stop.load(Ordering::Relaxed) && !mine {
			return Ok(());
		}
		if harness_panic.borrow().is_some() {
			return Ok(());
		}
		let r = catch_unwind(AssertUnwindSafe(|| sh.eval(&tape)));
		match r {
			Ok(Ok(())) => Ok(()),
			Ok(Err(out)) => {
				stop.store(true, Ordering::Relaxed);
				let why = out.fail.clone().unwrap_or_default();
				*failing.borrow_mut() = Some(Found {
					tape,
					input: out.input,
					why: why.clone(),
				});
				Err(TestCaseError::fail(why))
			}
			Err(e) if e.is::<Discarded>() => {
				*sh.stats.borrow_mut().tags.entry("discarded").or_default() += 1;
				Ok(())
			}
			Err(_) => {
				*harness_panic.borrow_mut() = Some(format!("{} tape {}", last_panic(), hex(&tape)));
				stop.store(true, Ordering::Relaxed);
				Ok(())
			}
		}
	};

	if enumerated {
		let mut i = shard;
		while i < count && !stop.load(Ordering::Relaxed) {
			let index = (i * step + offset).to_le_bytes().to_vec();
			let strategy = TapeStrategy {
				len: tape_len,
				prefix: index,
			};
			if tape_len == 0 {
				let _ = eval(strategy.prefix.clone());
			} else {
				let tree = strategy.new_tree(&mut runner).expect("tape");
				if eval(tree.current()).is_err() {
					// the index stays
					tree.shrink(5000, |t| eval(t).is_err());
				}
			}
			i += THREADS;
		}
	} else if cfg.guided {
		let mut g = Guided::new(runner.rng().clone(), tape_len);
		for _ in 0..cases {
			if stop.load(Ordering::Relaxed) {
				break;
			}
			let tape = g.next();
			cov::start(g.made % 4 == 0);
			let r = eval(tape.clone());
			g.learn(&tape);
			if r.is_err() {
				TapeTree::new(tape, 0).shrink(5000, |t| eval(t).is_err());
				break;
			}
		}
		let mut s = sh.stats.borrow_mut();
		*s.tags.entry("tapes kept").or_default() += g.corpus.len() as u64;
		*s.tags.entry("features reached").or_default() += g.features;
	} else {
		let strategy = TapeStrategy {
			len: tape_len,
			prefix: Vec::new(),
		};
		match runner.run(&strategy, &eval) {
			Ok(()) => {}
			Err(TestError::Fail(_, _)) => {}
			Err(TestError::Abort(r)) => return Err(Crash::Harness(format!("proptest: {r}"))),
		}
	}
	done.fetch_add(1, Ordering::Relaxed);
	let found = failing.into_inner();
	if found.is_none() {
		if let Some(p) = harness_panic.into_inner() {
			return Err(Crash::Harness(p));
		}
	}
	Ok((sh.stats.into_inner(), found))
}

// ---------------------------------------------------------------------------
// The coverage-guided stage: tapes that reach something new are kept, and new
// ones are made from them

/// Subs with fewer cases than this have cases too dear for it
const GUIDED_FROM: u64 = 10_000;
/// Guided cases per hundred random ones
const GUIDED_SHARE: u64 = 40;
/// How often an operand is looked for at a place; having found it counts for more
const TRIES: u8 = 200;
/// A corpus does not grow beyond this
const CORPUS: usize = 3000;

struct Kept {
	tape: Vec<u8>,
	/// What could be put where, to make a comparison come out equal
	swaps: Vec<Swap>,
}

#[derive(Clone)]
struct Swap {
	at: usize,
	with: Vec<u8>,
}

/// The ways a number may be written on a tape
fn spellings(from: u64, to: u64, mut w: u8) -> Vec<(Vec<u8>, Vec<u8>)> {
	let decimal = |mut v: u64, n: usize| -> Option<Vec<u8>> {
		let b = (0..n)
			.map(|_| {
				let b = v % 10 + v / 10 % 10 * 16;
				v /= 100;
				b as u8
			})
			.collect();
		(v == 0).then_some(b)
	};
	let mut out = Vec::new();
	loop {
		let n = usize::from(w);
		if from.max(to) >> (w * 8 - 1) >> 1 == 0 {
			let (f, t) = (from.to_le_bytes()[..n].to_vec(), to.to_le_bytes()[..n].to_vec());
			if n > 1 {
				let back = |v: &[u8]| v.iter().rev().copied().collect::<Vec<u8>>();
				out.push((back(&f), back(&t)));
			}
			out.push((f, t));
		}
		if let (Some(f), Some(t)) = (decimal(from, n), decimal(to, n)) {
			if from.max(to) > 9 {
				out.push((f, t));
			}
		}
		if w == 1 || from.max(to) >> (w * 4) != 0 {
			break;
		}
		w /= 2;
	}
	out
}

fn swap(t: &mut [u8], s: &Swap) {
	for (to, b) in t.iter_mut().skip(s.at).zip(&s.with) {
		*to = *b;
	}
}

struct Guided {
	rng: TestRng,
	tape_len: usize,
	seen: Vec<u8>,
	features: u64,
	corpus: Vec<Kept>,
	made: u64,
	/// Tapes to be run before any others
	queue: Vec<Vec<u8>>,
	/// How often a comparison was answered with an operand
	tried: HashMap<(u32, u64, bool), u8>,
}

impl Guided {
	fn new(rng: TestRng, tape_len: usize) -> Self {
		Self {
			rng,
			tape_len,
			seen: vec![0; cov::FEATURES],
			features: 0,
			corpus: Vec::new(),
			made: 0,
			queue: Vec::new(),
			tried: HashMap::new(),
		}
	}

	fn below(&mut self, n: usize) -> usize {
		(self.rng.random::<u64>() % n.max(1) as u64) as usize
	}

	fn fresh(&mut self) -> Vec<u8> {
		let n = match self.below(4) {
			0 => self.below(self.tape_len) + 1,
			_ => self.tape_len,
		};
		let mut t = vec![0; n];
		self.rng.fill(&mut t[..]);
		t
	}

	fn next(&mut self) -> Vec<u8> {
		self.made += 1;
		if self.made % 2 == 0 {
			if let Some(t) = self.queue.pop() {
				return t;
			}
		}
		if self.corpus.is_empty() || self.made < 64 || self.below(50) == 0 {
			return self.fresh();
		}
		// of three, the latest: what was found last has been worked on least
		let n = self.corpus.len();
		let i = (0..3).map(|_| self.below(n)).max().unwrap_or(0);
		let mut t = self.corpus[i].tape.clone();
		for _ in 0..=self.below(4) {
			self.mutate(&mut t, i);
		}
		t.truncate(self.tape_len * 2);
		if t.is_empty() {
			t.push(0);
		}
		t
	}

	fn mutate(&mut self, t: &mut Vec<u8>, parent: usize) {
		if t.is_empty() {
			t.push(self.below(256) as u8);
			return;
		}
		// the front of a tape decides more than its end
		let at = match self.below(2) {
			0 => self.below(t.len()),
			_ => self.below(t.len().min(24)),
		};
		match self.below(13) {
			12 => {
				// what the library spells out
				let words = crate::dict::words();
				if !words.is_empty() {
					let with = words[self.below(words.len())].clone();
					swap(t, &Swap { at, with });
				}
			}
			0 => t[at] ^= 1 << self.below(8),
			1 => t[at] = self.below(256) as u8,
			2 => t[at] = t[at].wrapping_add(1 + self.below(16) as u8),
			3 => t[at] = t[at].wrapping_sub(1 + self.below(16) as u8),
			4 => {
				const EDGES: [u8; 12] =
					[0, 1, 0x0F, 0x10, 0x2F, 0x7F, 0x80, 0x81, 0xF0, 0xFE, 0xFF, 0x68];
				t[at] = EDGES[self.below(EDGES.len())];
			}
			5 => {
				let n = (1 + self.below(8)).min(t.len() - at);
				t.drain(at..at + n);
			}
			6 => {
				for _ in 0..=self.below(4) {
					t.insert(at, self.rng.random::<u8>());
				}
			}
			7 => {
				// repeat a stretch
				let n = (1 + self.below(8)).min(t.len() - at);
				let part = t[at..at + n].to_vec();
				let to = self.below(t.len() + 1);
				t.splice(to..to, part);
			}
			8 => {
				// go on as another one does
				let o = self.below(self.corpus.len());
				let other = &self.corpus[o].tape;
				if at < other.len() {
					t.truncate(at);
					t.extend_from_slice(&other[at..]);
				}
			}
			9 => {
				// a stretch of another one
				let o = self.below(self.corpus.len());
				let from = self.below(self.corpus[o].tape.len());
				let n = 1 + self.below(12);
				let other = &self.corpus[o].tape;
				for (to, b) in t[at..].iter_mut().zip(other[from..].iter().take(n)) {
					*to = *b;
				}
			}
			_ => {
				let n = self.corpus[parent].swaps.len();
				if n > 0 {
					let pick = self.below(n);
					swap(t, &self.corpus[parent].swaps[pick]);
				}
			}
		}
	}

	/// Keep the tape just run if it reached something
	fn learn(&mut self, tape: &[u8]) {
		let mut new = false;
		let mut pairs = Vec::new();
		let (seen, features) = (&mut self.seen, &mut self.features);
		cov::stop(
			|f, class| {
				let s = &mut seen[f as usize];
				if *s & class == 0 {
					*features += u64::from(*s == 0);
					*s |= class;
					new = true;
				}
			},
			|p| pairs.push(*p),
		);
		if !new && self.made % 8 != 0 {
			return;
		}
		let mut swaps = Vec::new();
		let mut searches = 0;
		// not always the first ones
		let from = self.below(pairs.len());
		for p in pairs[from..].iter().chain(&pairs[..from]) {
			for (from, to) in [(p.a, p.b), (p.b, p.a)] {
				if p.constant && to == p.b && from == p.a {
					continue;
				}
				// a small number is found on any tape, and mostly by chance
				let weak = from < 256 && to >= 256;
				let tries = self.tried.entry((p.site, to, weak)).or_default();
				// worth it again where something new was reached
				if *tries >= TRIES && !new {
					continue;
				}
				searches += 1;
				let before = swaps.len();
				for (f, with) in spellings(from, to, p.width) {
					let places = tape.windows(f.len()).enumerate().filter(|(_, x)| *x == f);
					for (at, _) in places.take(3) {
						swaps.push(Swap {
							at,
							with: with.clone(),
						});
					}
				}
				let cost = if swaps.len() > before { TRIES / 20 } else { 1 };
				*tries = tries.saturating_add(cost);
			}
			if swaps.len() > 64 || searches > 6000 / (tape.len() + 20) {
				break;
			}
		}
		if self.queue.len() < 256 {
			for s in &swaps {
				let mut t = tape.to_vec();
				swap(&mut t, s);
				self.queue.push(t);
			}
		}
		if new && self.corpus.len() < CORPUS {
			self.corpus.push(Kept {
				tape: tape.to_vec(),
				swaps,
			});
		}
	}
}
