//! Checks the properties in /verif/properties.jsonl by generated-input search.
//!
//!   mbus-verif check C01 [quick|thorough]   supervise the check of one property
//!   mbus-verif replay FILE                  run one recorded violation again
//!   mbus-verif work C01 quick RESULT JOURNAL  (used by `check`)
//!   mbus-verif one C01 SUB TAPE             (used by `check`: a single case)
//!   mbus-verif fresh HEX                    (used by C22: a process that decodes one input)

mod alloc;
mod checks;
mod dict;
mod enc;
mod engine;
mod model;
mod obs;
mod tables;
mod tape;
mod types;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use engine::{hex, unhex, Crash, RunConfig, Sub};
use tape::Tape;

/// A check that fails itself, as opposed to the property failing
const BROKEN: i32 = 3;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
	let code = match arg(1) {
		"check" => check(arg(2), arg(3) == "thorough"),
		"work" => work(arg(2), arg(3) == "thorough", arg(4), arg(5)),
		"one" => one(arg(2), arg(3).parse().unwrap_or(0), arg(4)),
		"replay" => replay(arg(2)),
		"fresh" => {
			engine::install_panic_hook();
			println!("{}", checks::whole::fresh(&unhex(arg(2)).unwrap_or_default()));
			0
		}
		_ => {
			eprintln!("usage: mbus-verif check ID [thorough] | replay FILE");
			BROKEN
		}
	};
	std::process::exit(code);
}

fn subs(id: &str) -> Option<&'static [Sub]> {
	checks::all().into_iter().find(|(i, _)| *i == id).map(|(_, s)| s)
}

fn seed() -> u64 {
	std::env::var("VERIF_SEED")
		.ok()
		.and_then(|s| s.trim().parse().ok())
		.unwrap_or(1)
}

/// Harness and evidence live here
fn home() -> PathBuf {
	std::env::var_os("MBUS_VERIF_HOME")
		.map(PathBuf::from)
		.unwrap_or_else(|| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------------------
// The worker: runs the sub-checks and writes what came of them, a line at a time

fn clean(s: &str) -> String {
	s.replace(['\t', '\n', '\r'], " ")
}

fn work(id: &str, thorough: bool, result: &str, journal: &str) -> i32 {
	let Some(subs) = subs(id) else { return BROKEN };
	engine::install_panic_hook();
	let scale = std::env::var("MBUS_SCALE")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(1.0);
	let cfg = RunConfig {
		seed: seed(),
		thorough,
		scale,
		journal: Some(journal).filter(|j| !j.is_empty()),
		property: id,
		guided: std::env::var_os("MBUS_GUIDED").is_some(),
	};
	if cfg.guided && !cov::present() {
		return BROKEN;
	}
	let only = std::env::var("MBUS_ONLY").ok();
	let mut out = std::fs::File::create(result).expect("result file");
	for (no, sub) in subs.iter().enumerate() {
		if only.as_ref().is_some_and(|o| !sub.name.contains(o.as_str())) {
			continue;
		}
		let start = Instant::now();
		match engine::run_sub(&cfg, no, sub) {
			Err(Crash::Harness(p)) => {
				let _ = writeln!(out, "harness\t{}", clean(&format!("{}: {p}", sub.name)));
				return BROKEN;
			}
			Ok(None) => {}
			Ok(Some((stats, found))) => {
				let _ = writeln!(
					out,
					"sub\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}",
					sub.name,
					clean(sub.rule),
					stats.evaluations,
					stats.nontrivial,
					stats.distinct.len() as u64 + stats.in_blocks,
					stats.exhaustive,
					start.elapsed().as_secs_f64(),
				);
				for (tag, n) in &stats.tags {
					let _ = writeln!(out, "tag\t{}\t{tag}\t{n}", sub.name);
				}
				for s in &stats.samples {
					let _ = writeln!(out, "sample\t{}\t{s}", sub.name);
				}
				if let Some(f) = found {
					let _ = writeln!(
						out,
						"found\t{no}\t{}\t{}\t{}",
						hex(&f.tape),
						hex(&f.input),
						clean(&f.why)
					);
					// enough to act on
					break;
				}
			}
		}
	}
	let _ = writeln!(out, "done");
	0
}

/// Run one tape. 0: fine, 1: violation, anything else: the process died
fn one(id: &str, sub: usize, tape: &str) -> i32 {
	let Some(sub) = subs(id).and_then(|s| s.get(sub)) else {
		return BROKEN;
	};
	engine::install_panic_hook();
	let tape = unhex(tape).unwrap_or_default();
	// as much stack as a worker thread has
	std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(move || {
			let out = (sub.run)(&mut Tape::new(&tape));
			println!("input\t{}", hex(&out.input));
			match out.fail {
				Some(why) => {
					println!("fail\t{}", clean(&why));
					1
				}
				None => 0,
			}
		})
		.unwrap()
		.join()
		.unwrap_or(BROKEN)
}

// ---------------------------------------------------------------------------
// The supervisor

struct Finding {
	sub: usize,
	tape: String,
	input: String,
	why: String,
	profile: &'static str,
}

#[derive(Default)]
struct Report {
	/// name, rule, evaluations, nontrivial, distinct, exhaustive, seconds
	subs: Vec<(String, String, u64, u64, u64, bool, f64)>,
	tags: BTreeMap<String, BTreeMap<String, u64>>,
	samples: BTreeMap<String, Vec<String>>,
}

fn exe(profile: &str) -> PathBuf {
	let me = std::env::current_exe().expect("own path");
	// target/<profile>/mbus-verif
	let target = me.parent().and_then(Path::parent).expect("target directory");
	target.join(profile).join("mbus-verif")
}

/// Run a command for at most this long. None: it did not end
fn run(c: &mut Command, limit: Duration) -> Option<ExitStatus> {
	let mut child = c.spawn().expect("worker");
	let start = Instant::now();
	let mut nap = 5;
	loop {
		if let Some(s) = child.try_wait().expect("worker") {
			return Some(s);
		}
		if start.elapsed() > limit {
			let _ = child.kill();
			let _ = child.wait();
			return None;
		}
		std::thread::sleep(Duration::from_millis(nap));
		nap = (nap * 2).min(100);
	}
}

/// The process died of something the code under test did?
fn own_fault(s: ExitStatus) -> Option<&'static str> {
	match s.signal() {
		Some(4) => Some("illegal instruction"),
		Some(6) => Some("aborted"),
		Some(7) => Some("bus error"),
		Some(8) => Some("arithmetic exception"),
		Some(11) => Some("segmentation fault or stack overflow"),
		_ => None,
	}
}

struct Scratch(PathBuf);

impl Scratch {
	fn new() -> Self {
		let p = std::env::temp_dir().join(format!("mbus-verif-{}", std::process::id()));
		std::fs::create_dir_all(&p).expect("scratch directory");
		Self(p)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

fn check(id: &str, thorough: bool) -> i32 {
	if subs(id).is_none() {
		eprintln!("no such property: {id}");
		return BROKEN;
	}
	let start = Instant::now();
	let scratch = Scratch::new();
	let mut report = Report::default();
	let mut found = Vec::new();

	if let Some(f) = pattern_failure(id) {
		found.push(f);
	} else {
		let mut profiles = vec![("release", 1.0)];
		if id == "C01" {
			// the same again without debug assertions and overflow checks
			profiles.push(("plain", 0.5));
		}
		// and more, steered by what it reaches
		profiles.push(("guided", 1.0));
		for (profile, scale) in profiles {
			match supervise(id, thorough, profile, scale, &scratch.0, &mut report) {
				Ok(f) => found.extend(f),
				Err(e) => {
					eprintln!("{id}: {e}");
					return BROKEN;
				}
			}
			if !found.is_empty() {
				break;
			}
		}
	}

	let known = known_findings();
	for (p, _, what) in known.iter().filter(|k| k.0 == id) {
		println!("KNOWN-FINDING: property={p} {what}");
	}
	write_evidence(id, thorough, &report, &found, start.elapsed());
	for s in &report.subs {
		println!(
			"{id} {}: {} cases, {} distinct and non-trivial{}, {:.1} s",
			s.0,
			s.2,
			s.4,
			if s.5 { " (exhaustive)" } else { "" },
			s.6
		);
	}
	if found.is_empty() {
		return 0;
	}
	for f in &found {
		let path = write_replay(id, f);
		println!("{}", f.why);
		println!("input {}", f.input);
		println!("VIOLATION property={id} replay={}", path.display());
	}
	1
}

fn supervise(
	id: &str,
	thorough: bool,
	profile: &'static str,
	scale: f64,
	scratch: &Path,
	report: &mut Report,
) -> Result<Vec<Finding>, String> {
	let result = scratch.join(format!("result-{profile}"));
	let journal = scratch.join(format!("journal-{profile}"));
	let user_scale: f64 = std::env::var("MBUS_SCALE")
		.ok()
		.and_then(|s| s.parse().ok())
		.unwrap_or(1.0);
	let mut c = Command::new(exe(profile));
	c.arg("work")
		.arg(id)
		.arg(if thorough { "thorough" } else { "quick" })
		.arg(&result)
		.arg(&journal)
		.env("MBUS_SCRATCH", scratch.join("files"))
		.env("MBUS_SCALE", (scale * user_scale).to_string())
		.env_remove("MBUS_GUIDED")
		.stdin(Stdio::null());
	if profile == "guided" {
		c.env("MBUS_GUIDED", "1");
	}
	let limit = Duration::from_secs(if thorough { 12 * 3600 } else { 360 });
	let status = run(&mut c, limit);

	let mut found = Vec::new();
	let mut done = false;
	let mut broken = None;
	let suffix = match profile {
		"plain" => " (without runtime checks)",
		"guided" => " (coverage-guided)",
		_ => "",
	};
	for line in std::fs::read_to_string(&result).unwrap_or_default().lines() {
		let f: Vec<&str> = line.split('\t').collect();
		let num = |i: usize| f[i].parse::<u64>().unwrap_or(0);
		match f[0] {
			"sub" => report.subs.push((
				format!("{}{suffix}", f[1]),
				f[2].into(),
				num(3),
				num(4),
				num(5),
				f[6] == "true",
				f[7].parse().unwrap_or(0.0),
			)),
			"tag" => {
				let t = report.tags.entry(format!("{}{suffix}", f[1])).or_default();
				*t.entry(f[2].into()).or_default() += num(3);
			}
			"sample" => report
				.samples
				.entry(format!("{}{suffix}", f[1]))
				.or_default()
				.push(f[2].into()),
			"found" => found.push(Finding {
				sub: num(1) as usize,
				tape: f[2].into(),
				input: f[3].into(),
				why: f[4].into(),
				profile,
			}),
			"harness" => broken = Some(f[1].to_owned()),
			"done" => done = true,
			_ => {}
		}
	}
	if done || !found.is_empty() {
		return Ok(found);
	}
	if let Some(b) = broken {
		return Err(format!("the check itself failed: {b}"));
	}
	// The worker was ended. If one of the cases it was at does it again, on its
	// own, it is that case's doing.
	let tapes = engine::read_journal(&journal.to_string_lossy());
	let outcomes: Vec<Option<Finding>> = std::thread::scope(|s| {
		let handles: Vec<_> = tapes
			.iter()
			.map(|(sub, tape)| s.spawn(move || alone(id, *sub, tape, profile, scratch)))
			.collect();
		handles.into_iter().map(|h| h.join().unwrap()).collect()
	});
	for f in outcomes.into_iter().flatten() {
		return Ok(vec![f]);
	}
	Err(match status {
		None => format!("no result within {} s", limit.as_secs()),
		Some(s) => format!("the worker ended with {s}"),
	})
}

/// One case in a process of its own, with 8 GB of address space and 60 s of
/// processor time, of which it should need next to nothing
fn alone(
	id: &str,
	sub: usize,
	tape: &[u8],
	profile: &'static str,
	scratch: &Path,
) -> Option<Finding> {
	let mut c = Command::new("sh");
	c.arg("-c")
		.arg("ulimit -c 0; ulimit -v 8000000; ulimit -t 60; exec \"$0\" one \"$1\" \"$2\" \"$3\"")
		.arg(exe(profile))
		.arg(id)
		.arg(sub.to_string())
		.arg(hex(tape))
		.env("MBUS_SCRATCH", scratch.join("files"))
		.stdin(Stdio::null())
		.stdout(Stdio::null())
		.stderr(Stdio::null());
	let status = run(&mut c, Duration::from_secs(300))?;
	let why = match status.signal() {
		// SIGXCPU, and SIGKILL at the hard limit
		Some(24) | Some(9) => "does not end within 60 s of processor time",
		_ => own_fault(status)?,
	};
	Some(Finding {
		sub,
		tape: hex(tape),
		input: String::new(),
		why: format!("the process: {why}"),
		profile,
	})
}

/// C26, when the crate that uses every pattern does not build although the
/// library does: the pattern it failed at
fn pattern_failure(id: &str) -> Option<Finding> {
	let log = std::env::var("MBUS_VIFCHECK_LOG").ok()?;
	if id != "C26" || log.is_empty() {
		return None;
	}
	let text = std::fs::read_to_string(&log).unwrap_or_default();
	let source = std::fs::read_to_string(home().join("vifcheck/src/main.rs")).unwrap_or_default();
	let line = text
		.lines()
		.filter_map(|l| l.trim().strip_prefix("--> src/main.rs:"))
		.filter_map(|l| l.split(':').next()?.parse::<usize>().ok())
		.next()?;
	let pattern = source.lines().nth(line.checked_sub(1)?)?.split('"').nth(1)?;
	let error = text
		.lines()
		.find(|l| l.starts_with("error"))
		.unwrap_or("error")
		.to_owned();
	Some(Finding {
		sub: 0,
		tape: String::new(),
		input: hex(pattern.as_bytes()),
		why: format!("the pattern {pattern} cannot be used in a match: {error}"),
		profile: "release",
	})
}

// ---------------------------------------------------------------------------
// Known findings: lines of `finding: property=<id> input=<hex> <what fails>`,
// and of `fixed: ...`, which have no effect

/// Listed as a finding: this very input
pub fn is_known(id: &str, input: &[u8]) -> bool {
	static ALL: OnceLock<Vec<(String, Vec<u8>, String)>> = OnceLock::new();
	ALL.get_or_init(known_findings)
		.iter()
		.any(|(p, i, _)| p == id && i == input)
}

pub fn known_findings() -> Vec<(String, Vec<u8>, String)> {
	let text = std::fs::read_to_string(home().join("KNOWN_FINDINGS")).unwrap_or_default();
	text.lines()
		.filter_map(|l| l.strip_prefix("finding: property="))
		.filter_map(|l| {
			let (id, rest) = l.split_once(" input=")?;
			let (input, what) = rest.split_once(' ')?;
			Some((id.to_owned(), unhex(input)?, what.to_owned()))
		})
		.collect()
}

// ---------------------------------------------------------------------------
// Replay

fn write_replay(id: &str, f: &Finding) -> PathBuf {
	let dir = home().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let path = dir.join(format!("{id}-{}.txt", std::process::id()));
	let name = subs(id).map_or("", |s| s[f.sub].name);
	let text = format!(
		"property: {id}\nsub: {}\nname: {name}\nprofile: {}\ntape: {}\ninput: {}\nwhy: {}\n",
		f.sub, f.profile, f.tape, f.input, f.why
	);
	let _ = std::fs::write(&path, text);
	path
}

fn replay(path: &str) -> i32 {
	let Ok(text) = std::fs::read_to_string(path) else {
		eprintln!("cannot read {path}");
		return BROKEN;
	};
	let field = |name: &str| {
		text.lines()
			.find_map(|l| l.strip_prefix(&format!("{name}: ")))
			.unwrap_or_default()
			.to_owned()
	};
	let (id, sub, tape) = (field("property"), field("sub"), field("tape"));
	let profile = field("profile");
	let profile = match profile.as_str() {
		"plain" | "guided" => &profile,
		_ => "release",
	};
	print!("{text}");
	if id == "C26" && tape.is_empty() {
		let failed = pattern_failure(&id);
		println!("{}", failed.as_ref().map_or("fine now", |f| &f.why));
		return failed.is_some().into();
	}
	let scratch = Scratch::new();
	let status = Command::new(exe(profile))
		.args(["one", &id, &sub, &tape])
		.env("MBUS_SCRATCH", scratch.0.join("files"))
		.status()
		.expect("replay");
	match status.code() {
		Some(0) => {
			println!("fine now");
			0
		}
		_ => {
			println!("VIOLATION property={id} replay={path}");
			1
		}
	}
}

// ---------------------------------------------------------------------------
// Evidence

fn js(s: &str) -> String {
	let mut out = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			c if (c as u32) < 0x20 => {
				let _ = write!(out, "\\u{:04x}", c as u32);
			}
			c => out.push(c),
		}
	}
	out.push('"');
	out
}

fn write_evidence(
	id: &str,
	thorough: bool,
	report: &Report,
	found: &[Finding],
	wall: Duration,
) {
	let sum = |f: fn(&(String, String, u64, u64, u64, bool, f64)) -> u64| -> u64 {
		report.subs.iter().map(f).sum()
	};
	let rule: Vec<String> = report
		.subs
		.iter()
		.filter(|s| !s.0.ends_with("(without runtime checks)") && !s.0.ends_with("(coverage-guided)"))
		.map(|s| format!("[{}] {}", s.0, s.1))
		.collect();
	let mut samples = Vec::new();
	for (sub, list) in &report.samples {
		for s in list.iter().take(3) {
			samples.push(format!("{{\"sub\":{},\"input\":{}}}", js(sub), js(s)));
		}
	}
	let mut parts = Vec::new();
	for s in &report.subs {
		let tags: Vec<String> = report
			.tags
			.get(&s.0)
			.map(|t| t.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect())
			.unwrap_or_default();
		parts.push(format!(
			"{{\"sub\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\
			 \"exhaustive\":{},\"seconds\":{},\"classes\":{{{}}}}}",
			js(&s.0),
			s.2,
			s.3,
			s.4,
			s.5,
			s.6,
			tags.join(",")
		));
	}
	let exhaustive = !report.subs.is_empty() && report.subs.iter().all(|s| s.5);
	let text = format!(
		"{{\n\"property\":{},\n\"tier\":\"{}\",\n\"seed\":{},\n\"level\":\"exploration\",\n\
		 \"coverage\":{{\n\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\
		 \"samples\":[{}],\n\"exhaustive\":{},\n\"parts\":[{}]\n}},\n\
		 \"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
		js(id),
		if thorough { "thorough" } else { "quick" },
		seed(),
		sum(|s| s.2),
		sum(|s| s.4),
		js(&rule.join("; ")),
		samples.join(","),
		exhaustive && id == "C26",
		parts.join(",\n"),
		js("the reference decoder, encoder and tables in harness/src, written from EN 13757 and \
		    the repository's documentation, say what is right"),
		wall.as_secs_f64(),
		found.len()
	);
	let dir = home().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(dir.join(format!("{id}.json")), text).expect("evidence");
}
