//! C31: the answer depends on the bytes, not on how the library was built or on
//! the surroundings of the process. Other builds of `answer` answer over a
//! pipe; what they say has to be what this one says, word for word.

use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use super::*;
use crate::tables::Form;
use crate::engine::{hex, Outcome, Plan, Sub};

pub const C31: &[Sub] = &[
	Sub {
		name: "packets",
		plan: Plan::Random {
			tape: 400,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "packets of all kinds and what becomes of them by changes, decoded here and in two other \
		       builds; non-trivial if accepted or a frame with a right checksum",
		run: c31_packets,
	},
	Sub {
		name: "parts",
		plan: Plan::Random {
			tape: 300,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "bytes made for the decoder of one part, good or damaged, decoded here and in two other \
		       builds; non-trivial if accepted or at least two bytes long",
		run: c31_parts,
	},
	Sub {
		name: "another machine",
		plan: Plan::Random {
			tape: 200,
			quick: 500,
			thorough: 60_000,
		},
		rule: "packets and parts of up to some 80 bytes, decoded here and in a build for a machine with \
		       32 bit words of the other byte order, run by an interpreter; non-trivial if accepted or \
		       two bytes long",
		run: c31_machine,
	},
	Sub {
		name: "recordings",
		plan: Plan::Random {
			tape: 40,
			quick: 30_000,
			thorough: 2_000_000,
		},
		rule: "recorded telegrams with some bytes changed and the sum made right; every case counts",
		run: c31_recordings,
	},
];

struct Other {
	child: Child,
	to: ChildStdin,
	from: ChildStdout,
}

impl Drop for Other {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

/// A build of `answer` and the surroundings it is run in
struct Build {
	profile: &'static str,
	what: &'static str,
	env: &'static [(&'static str, &'static str)],
	cwd: &'static str,
}

const BUILDS: [Build; 3] = [
	Build {
		profile: "plain",
		what: "without runtime checks",
		env: &[
			("LANG", "tr_TR.UTF-8"),
			("LC_ALL", "tr_TR.UTF-8"),
			("TZ", "Pacific/Kiritimati"),
			("HOME", "/nonexistent"),
			("RUST_BACKTRACE", "full"),
			("RUST_LIB_BACKTRACE", "1"),
			("RUST_LOG", "trace"),
			("NO_COLOR", "1"),
			("DEBUG", "1"),
		],
		cwd: "/",
	},
	Build {
		profile: "unopt",
		what: "not optimised",
		env: &[],
		cwd: "/tmp",
	},
	// started by cargo; ./check says in MBUS_MACHINE whether it can be
	Build {
		profile: "machine",
		what: "on a big-endian machine of 32 bits",
		env: &[],
		cwd: "/",
	},
];
const MACHINE: usize = 2;

impl Other {
	fn new(b: &Build) -> Option<Other> {
		let me = std::env::current_exe().expect("own path");
		// target/<profile>/mbus-verif
		let target = me.ancestors().nth(2).expect("target directory");
		let mut c;
		if b.profile == "machine" {
			c = Command::new("bash");
			c.arg("-c").arg(std::env::var("MBUS_MACHINE").ok()?);
		} else {
			c = Command::new(target.join(b.profile).join("answer"));
			c.env_clear();
			if !b.env.is_empty() {
				// and what else the library may be asking for
				c.envs(crate::dict::names().iter().map(|n| (n, "1")));
			}
		}
		let mut child = c
			.envs(b.env.iter().copied())
			.current_dir(b.cwd)
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.ok()?;
		let to = child.stdin.take()?;
		let from = child.stdout.take()?;
		Some(Other { child, to, from })
	}

	fn ask(&mut self, which: u8, size: u8, d: &[u8]) -> Option<String> {
		let mut q = vec![which, size];
		q.extend((d.len() as u32).to_le_bytes());
		q.extend(d);
		self.to.write_all(&q).ok()?;
		let mut n = [0; 4];
		self.from.read_exact(&mut n).ok()?;
		let mut a = vec![0; u32::from_le_bytes(n) as usize];
		self.from.read_exact(&mut a).ok()?;
		Some(String::from_utf8_lossy(&a).into_owned())
	}
}

thread_local! {
	static OTHERS: RefCell<[Option<Other>; 3]> = const { RefCell::new([None, None, None]) };
}

/// What another build says, or that it dies over this. None: it does not run at all
fn elsewhere(i: usize, which: u8, size: u8, d: &[u8]) -> Option<String> {
	OTHERS.with_borrow_mut(|all| {
		for _ in 0..2 {
			if all[i].is_none() {
				all[i] = Other::new(&BUILDS[i]);
			}
			match all[i].as_mut()?.ask(which, size, d) {
				Some(a) => return Some(a),
				None => all[i] = None,
			}
		}
		Other::new(&BUILDS[i])?.ask(0, 0, &[0xE5])?;
		Some("the process died".into())
	})
}

fn clip(s: &str) -> String {
	let s = s.trim().replace('\n', " / ");
	s.chars().take(600).collect()
}

fn judge(builds: std::ops::Range<usize>, which: u8, size: u8, d: &[u8]) -> Outcome {
	let here = obs::catch(|| answer::answer(which, size, d)).unwrap_or_else(|_| "panicked".into());
	let mut input = vec![which, size];
	input.extend(d);
	let out = Outcome::new(if which == 0 { d } else { &input })
		.tag(if here.contains("rejected, cause") { "rejected" } else { "accepted" });
	for i in builds {
		let there = match elsewhere(i, which, size, d) {
			Some(there) => there,
			None if i == MACHINE => return Outcome::new(d).nontrivial(false).tag("no interpreter"),
			None => {
				eprintln!("the build {} does not run", BUILDS[i].what);
				std::process::exit(3)
			}
		};
		if there != here {
			let part = if which == 0 { String::new() } else { format!("part {which}, size {size}, ") };
			return out.fail(format!(
				"{part}{}: {}; {}: {}",
				hex(d),
				clip(&here),
				BUILDS[i].what,
				clip(&there)
			));
		}
	}
	out
}

fn c31_packets(t: &mut Tape) -> Outcome {
	let d = whole::some_input(t);
	let out = judge(0..MACHINE, 0, 0, &d);
	let counts = out.tags.contains(&"accepted") || model::envelope(&d);
	out.nontrivial(counts)
}

fn c31_parts(t: &mut Tape) -> Outcome {
	let (which, size, d) = some_part(t, 150);
	let out = judge(0..MACHINE, which, size, &d);
	let counts = out.tags.contains(&"accepted") || d.len() >= 2;
	out.nontrivial(counts)
}

fn c31_machine(t: &mut Tape) -> Outcome {
	let (which, size, d) = if t.chance(1, 3) {
		let body = enc::frame(t, 40).bytes;
		(0, 0, response(carrier(t), &body))
	} else {
		some_part(t, 40)
	};
	let out = judge(MACHINE..MACHINE + 1, which, size, &d);
	let counts = !out.tags.contains(&"no interpreter") && (out.tags.contains(&"accepted") || d.len() >= 2);
	out.nontrivial(counts)
}

/// A part decoder, the size it is told, and bytes for it
fn some_part(t: &mut Tape, room: usize) -> (u8, u8, Vec<u8>) {
	let which = t.u8() % (answer::PARTS - 1) + 1;
	let mut size = t.u8();
	if room < 100 {
		size &= 0x8F;
	}
	let n = usize::from(size);
	let mut d = match which {
		_ if t.chance(1, 4) => {
			let n = t.len(30);
			t.bytes(n)
		}
		1 => [carrier(t), &enc::frame(t, room).bytes].concat(),
		2 => enc::frame(t, room).bytes,
		3 => enc::record(t, room).bytes,
		4 => enc::header(t, Form::Short).0,
		5 => enc::header(t, Form::Long).0,
		6 => enc::date_f(t).0,
		7 => enc::date_g(t).0,
		8 => enc::date_i(t).0,
		9 => enc::time_j(t).0,
		10 => enc::dst_k(t).0,
		11 => enc::bcd_digits(t, n % 10, true).0,
		16 => t.bytes(n),
		17 => {
			let mut d = vec![size];
			d.extend(t.bytes(n).iter().map(|c| c & 0x7F));
			d
		}
		19 | 20 => {
			let n = t.len(20);
			(0..n).map(|_| t.edge_u8()).collect()
		}
		21 => {
			let code = t.pick(&enc::CODES);
			enc::dib(t, code).bytes
		}
		22 => enc::vib(t).bytes,
		_ => {
			let n = t.len(16);
			(0..n).map(|_| t.edge_u8()).collect()
		}
	};
	if t.chance(1, 3) {
		enc::mutate(t, &mut d);
	}
	(which, size, d)
}

fn c31_recordings(t: &mut Tape) -> Outcome {
	let mut d = recording(t);
	for _ in 0..t.below(4) {
		let i = t.below(d.len());
		d[i] = t.u8();
	}
	if t.chance(7, 8) {
		enc::repair(&mut d, true);
	}
	judge(0..MACHINE, 0, 0, &d)
}
