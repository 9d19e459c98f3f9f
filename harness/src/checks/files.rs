//! C23 files, C24 the command-line tool

use std::cell::RefCell;
use std::ffi::OsString;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

use libmbus::parse::link_layer::Packet;
use libmbus::utils::read_test_file;
use winnow::prelude::*;
use winnow::Bytes;

use super::*;
use crate::engine::{Outcome, Plan, Sub};

// ---------------------------------------------------------------------------
// A directory of its own for each thread, inside the one the supervisor made

thread_local! {
	static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

static NEXT: AtomicU64 = AtomicU64::new(0);

fn dir() -> PathBuf {
	DIR.with(|d| {
		d.borrow_mut()
			.get_or_insert_with(|| {
				let base = std::env::var_os("MBUS_SCRATCH").expect("MBUS_SCRATCH");
				let n = NEXT.fetch_add(1, Ordering::Relaxed);
				let p = Path::new(&base).join(format!("t{n}"));
				std::fs::create_dir_all(&p).expect("scratch directory");
				p
			})
			.clone()
	})
}

/// A file in that directory
fn put(name: &str, contents: &[u8]) -> String {
	let p = dir().join(name);
	std::fs::write(&p, contents).expect("scratch file");
	p.to_str().expect("scratch path").to_owned()
}

fn read(name: &str) -> Obs<Vec<u8>> {
	match obs::catch(|| read_test_file(name).map_err(|e| e.to_string())) {
		Ok(Ok(d)) => Obs::Ok(d),
		Ok(Err(e)) => Obs::Rej(e),
		Err(p) => Obs::Panic(p),
	}
}

fn must_read(name: &str, want: &[u8]) -> Option<String> {
	match read(name) {
		Obs::Ok(d) if d == want => None,
		Obs::Ok(d) => Some(format!(
			"read {} bytes, must be {}; they differ from byte {}",
			d.len(),
			want.len(),
			d.iter().zip(want).take_while(|(a, b)| a == b).count()
		)),
		Obs::Rej(e) => Some(format!("not read: {e}")),
		Obs::Panic(p) => Some(format!("panicked: {p}")),
	}
}

fn must_fail(name: &str) -> Option<String> {
	match read(name) {
		Obs::Ok(d) => Some(format!("read as {} bytes, must be an error", d.len())),
		Obs::Rej(_) => None,
		Obs::Panic(p) => Some(format!("panicked: {p}")),
	}
}

// ---------------------------------------------------------------------------
// C23

pub const C23: &[Sub] = &[
	Sub {
		name: "spelling of every byte",
		plan: Plan::Enumerate {
			count: 256 * 4,
			tail: 12,
		},
		rule: "every byte value in each mixture of upper and lower case digits, at a generated \
		       place among others",
		run: c23_spelling,
	},
	Sub {
		name: "hex files",
		plan: Plan::Random {
			tape: 700,
			quick: 120_000,
			thorough: 3_000_000,
		},
		rule: "generated bytes or packets spelled in two digits of either case, with generated \
		       white space around them all. Every case counts",
		run: c23_hex,
	},
	Sub {
		name: "long hex files",
		plan: Plan::Random {
			tape: 64,
			quick: 400,
			thorough: 10_000,
		},
		rule: "hex files of 4000 to 300000 bytes, made by repeating a generated pattern",
		run: c23_long,
	},
	Sub {
		name: "other files",
		plan: Plan::Random {
			tape: 700,
			quick: 120_000,
			thorough: 3_000_000,
		},
		rule: "files with names that do not end in .hex, some containing what looks like hex: their \
		       exact contents",
		run: c23_other,
	},
	Sub {
		name: "not hex",
		plan: Plan::Random {
			tape: 300,
			quick: 120_000,
			thorough: 3_000_000,
		},
		rule: "hex files in which one item is not a byte in hexadecimal (another character, too \
		       large, empty), or which are not text: an error",
		run: c23_bad,
	},
	Sub {
		name: "unreadable files",
		plan: Plan::Random {
			tape: 32,
			quick: 4_000,
			thorough: 50_000,
		},
		rule: "paths at which there is nothing, a directory, or which lead through a file: an error",
		run: c23_unreadable,
	},
	Sub {
		name: "files that are not plain",
		plan: Plan::Random {
			tape: 300,
			quick: 3_000,
			thorough: 60_000,
		},
		rule: "named pipes written to in generated pieces of up to 200000 bytes in all, and links to \
		       files of another name. Every case counts",
		run: c23_pipes,
	},
	Sub {
		name: "loosely spelled",
		plan: Plan::Random {
			tape: 300,
			quick: 60_000,
			thorough: 2_000_000,
		},
		rule: "hex files with items of one digit, with a sign or with more digits than needed, or with \
		       other white space than single spaces between them: an error, or all the bytes, but \
		       nothing else",
		run: c23_loose,
	},
];

extern "C" {
	fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

/// Read a named pipe that is written to in pieces
fn through_pipe(name: &str, d: &[u8], want: &[u8], pieces: &[usize]) -> Option<String> {
	use std::io::{Read, Write};
	use std::os::unix::fs::OpenOptionsExt;
	let path = dir().join(name);
	let _ = std::fs::remove_file(&path);
	let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
	if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 {
		// not to be had here
		return None;
	}
	let text = path.to_str().unwrap().to_owned();
	let (tx, rx) = std::sync::mpsc::channel();
	let why = std::thread::scope(|s| {
		let reader = {
			let text = text.clone();
			s.spawn(move || {
				let r = must_read(&text, want);
				let _ = tx.send(());
				r
			})
		};
		let writer = {
			let path = path.clone();
			s.spawn(move || {
				// waits for a reader
				let Ok(mut f) = File::options().write(true).open(path) else { return };
				let mut at = 0;
				for n in pieces {
					let end = (at + n).min(d.len());
					if f.write_all(&d[at..end]).is_err() {
						return;
					}
					at = end;
					std::thread::yield_now();
				}
				let _ = f.write_all(&d[at..]);
			})
		};
		let mut late = false;
		let done = |wait: u64| rx.recv_timeout(std::time::Duration::from_millis(wait)).is_ok();
		if !done(30_000) {
			late = true;
			// let it see an end
			loop {
				let w = File::options().write(true).custom_flags(0o4000).open(&path);
				drop(w);
				if done(10) {
					break;
				}
			}
		}
		// and let the writer go if nobody has read what it wrote
		let nonblocking = || File::options().read(true).custom_flags(0o4000).open(&path);
		while !writer.is_finished() {
			if let Ok(mut f) = nonblocking() {
				let mut sink = [0; 65536];
				while let Ok(n) = f.read(&mut sink) {
					if n == 0 {
						break;
					}
				}
			}
			std::thread::yield_now();
		}
		let why = reader.join().unwrap();
		if late {
			Some("reading a pipe did not end within 30 s of its being closed".into())
		} else {
			why
		}
	});
	let _ = std::fs::remove_file(&path);
	why
}

fn c23_pipes(t: &mut Tape) -> Outcome {
	let hex = t.bool();
	let long = t.chance(1, 6);
	let d = if long {
		let n = t.range(60_000, 70_000) * if t.bool() { 1 } else { 3 };
		let k = t.range(1, 20);
		let pattern = t.bytes(k);
		pattern.into_iter().cycle().take(n / if hex { 3 } else { 1 }).collect()
	} else {
		some_bytes(t)
	};
	let text = if hex {
		format!("{}{}{}", white(t), spelled(t, &d).join(" "), white(t)).into_bytes()
	} else {
		d.clone()
	};
	let name = if hex { hex_name(t) } else { t.pick(&["a.bin", "a", "hex", "a.hex.bin"]) };
	let out = Outcome::new(&text);
	if t.chance(1, 3) {
		let target = t.pick(&["target.hex", "target.bin", "target"]);
		let to = put(target, &text);
		let link = dir().join(name);
		let _ = std::fs::remove_file(&link);
		if std::os::unix::fs::symlink(&to, &link).is_err() {
			return out.nontrivial(false);
		}
		let why = must_read(link.to_str().unwrap(), &d);
		let _ = std::fs::remove_file(&link);
		return out.tag("link").verdict(why);
	}
	let pieces: Vec<usize> = (0..t.range(0, 6)).map(|_| t.below(text.len() + 1)).collect();
	out.tag("pipe").verdict(through_pipe(name, &text, &d, &pieces))
}

fn c23_loose(t: &mut Tape) -> Outcome {
	let n = t.range(1, 30);
	let d = t.data(n);
	let mut text = white(t);
	let mut plain = true;
	let odd_items = t.bool();
	for (i, b) in d.iter().enumerate() {
		if i > 0 {
			text.push_str(match t.u8() % 16 {
				0 => "  ",
				1 => "\t",
				2 => "\n",
				3 => "\r\n",
				4 => " \n",
				5 => "   ",
				6 => "\u{A0}",
				_ => " ",
			});
		}
		let item = match t.u8() % 16 {
			0 if odd_items => format!("{b:x}"),
			1 if odd_items => format!("+{b:02x}"),
			2 if odd_items => format!("0{b:02X}"),
			3 if odd_items => format!("000000{b:02X}"),
			_ => spell(*b, 0),
		};
		plain &= item.len() == 2;
		text.push_str(&item);
	}
	text.push_str(&white(t));
	plain &= !text.trim().contains("  ") && !text.trim().contains(['\t', '\n', '\r', '\u{A0}']);
	let name = put("loose.hex", text.as_bytes());
	let why = match read(&name) {
		Obs::Panic(p) => Some(format!("panicked: {p}")),
		Obs::Rej(e) if plain => Some(format!("not read: {e}")),
		Obs::Rej(_) => None,
		Obs::Ok(got) => (got != d).then(|| format!("read as {} bytes, not the {n} it spells", got.len())),
	};
	Outcome::new(text.as_bytes())
		.tag(if plain { "plain" } else { "loose" })
		.nontrivial(!plain)
		.verdict(why)
}

fn digit(v: u8, upper: bool) -> char {
	let c = char::from_digit(v.into(), 16).unwrap();
	if upper {
		c.to_ascii_uppercase()
	} else {
		c
	}
}

fn spell(b: u8, case: u8) -> String {
	[digit(b >> 4, case & 1 != 0), digit(b & 15, case & 2 != 0)]
		.iter()
		.collect()
}

fn spelled(t: &mut Tape, d: &[u8]) -> Vec<String> {
	// one case throughout, or a mixture
	let all = t.u8() % 6;
	d.iter()
		.map(|b| spell(*b, if all < 4 { all } else { t.u8() }))
		.collect()
}

fn white(t: &mut Tape) -> String {
	let n = if t.bool() { 0 } else { t.range(1, 4) };
	(0..n)
		.map(|_| t.pick(&[' ', '\n', '\t', '\r', '\n', '\x0B', '\x0C', '\u{A0}', '\u{2003}', '\u{85}']))
		.collect()
}

fn hex_name(t: &mut Tape) -> &'static str {
	t.pick(&["a.hex", "a.b.hex", "frame 1.hex", ".hex", "a.txt.hex", "Ü.hex"])
}

fn some_bytes(t: &mut Tape) -> Vec<u8> {
	match t.u8() % 4 {
		0 => recording(t),
		1 => enc::packet(t).bytes,
		_ => {
			let n = 1 + t.len(200);
			t.data(n)
		}
	}
}

fn c23_spelling(t: &mut Tape) -> Outcome {
	let i = t.index();
	let n = t.below(8);
	let mut d: Vec<u8> = t.data(n);
	let at = t.below(n + 1);
	d.insert(at, i as u8);
	let text: Vec<String> = d.iter().map(|b| spell(*b, (i >> 8) as u8)).collect();
	let text = text.join(" ");
	let name = put("spell.hex", text.as_bytes());
	Outcome::new(text.as_bytes()).verdict(must_read(&name, &d))
}

fn c23_hex(t: &mut Tape) -> Outcome {
	let name = hex_name(t);
	let before = white(t);
	let after = white(t);
	let d = some_bytes(t);
	let text = format!("{before}{}{after}", spelled(t, &d).join(" "));
	let name = put(name, text.as_bytes());
	Outcome::new(text.as_bytes()).verdict(must_read(&name, &d))
}

fn c23_long(t: &mut Tape) -> Outcome {
	let n = if t.bool() { t.range(4000, 70000) } else { t.range(4000, 300_000) };
	let k = t.range(1, 20);
	let pattern = t.bytes(k);
	let case = t.u8();
	let hex = t.bool();
	let d: Vec<u8> = pattern.iter().copied().cycle().take(n).collect();
	let why = if hex {
		let text: Vec<String> = d.iter().map(|b| spell(*b, case)).collect();
		must_read(&put("long.hex", text.join(" ").as_bytes()), &d)
	} else {
		must_read(&put("long.bin", &d), &d)
	};
	let mut input = (n as u32).to_le_bytes().to_vec();
	input.push(u8::from(hex));
	input.extend(pattern);
	Outcome::new(&input).verdict(why)
}

fn c23_other(t: &mut Tape) -> Outcome {
	let name = t.pick(&[
		"a.bin", "a", "hex", "a.hex.bin", "a.hexx", "a.hex~", "ahex", "a.mbus", "a.txt", "x.he",
		"a.hex ",
	]);
	let d = match t.u8() % 4 {
		0 => {
			let d = some_bytes(t);
			let text = format!("{}{}{}", white(t), spelled(t, &d).join(" "), white(t));
			text.into_bytes()
		}
		1 => {
			let n = t.len(300);
			(0..n)
				.map(|_| t.pick(b" \n\r\t\0\xFF\xFE\xEF\xBB\xBF0aF\x1A"))
				.collect()
		}
		2 => {
			let n = t.len(600);
			t.data(n)
		}
		_ => some_bytes(t),
	};
	let name = put(name, &d);
	Outcome::new(&d).verdict(must_read(&name, &d))
}

fn c23_bad(t: &mut Tape) -> Outcome {
	let n = t.range(1, 40);
	let d = t.data(n);
	let mut items: Vec<String> = spelled(t, &d);
	let at = t.below(n + 1);
	let how = t.u8() % 8;
	let mut tail: Vec<u8> = Vec::new();
	let bad: String = match how {
		0 => {
			// one digit replaced by something that is not one
			let other = t.pick(&[
				'g', 'G', 'x', 'O', 'l', '-', '_', '.', ',', ':', '/', '@', '`', '\0', 'é', 'Z', '"',
				'%', '٣', '\u{300}', '\u{FEFF}', 'Ａ',
			]);
			if t.bool() {
				format!("{other}{}", digit(t.u8() & 15, false))
			} else {
				format!("{}{other}", digit(t.u8() & 15, true))
			}
		}
		1 => format!("0x{}", spell(t.u8(), 0)),
		// more than a byte
		2 => format!("{:X}", 0x100 + u32::from(t.u16())),
		3 => format!("{}{}{}{}", spell(t.u8() | 0x10, 0), spell(t.u8(), 0), spell(t.u8(), 0), spell(t.u8(), 0)),
		4 => format!("-{}", digit(t.range(1, 15) as u8, false)),
		5 => t.pick(&["zz", "hello", "#", "//", "h", "0b", "1h", "FFh", "$F"]).to_owned() + if t.bool() { "!" } else { "?" },
		6 => {
			// two bytes run together: one item that is more than a byte
			format!("{}{}", spell(t.u8() | 0x10, 3), spell(t.u8(), 3))
		}
		_ => {
			// not text at all
			tail = t.pick(&[&[0xFFu8][..], &[0x80], &[0xC3, 0x28], &[0xED, 0xA0, 0x80]]).to_vec();
			String::new()
		}
	};
	let text = if tail.is_empty() {
		items.insert(at, bad);
		items.join(" ").into_bytes()
	} else {
		let mut x = items[..at].join(" ").into_bytes();
		x.extend(tail);
		x.extend(items[at..].join(" ").into_bytes());
		x
	};
	let name = put("bad.hex", &text);
	Outcome::new(&text).verdict(must_fail(&name))
}

fn c23_unreadable(t: &mut Tape) -> Outcome {
	let ext = t.pick(&[".hex", ".bin", ""]);
	let n = t.u32();
	let path = match t.u8() % 3 {
		0 => dir().join(format!("nothing-{n}{ext}")),
		1 => {
			let p = dir().join(format!("directory{ext}"));
			let _ = std::fs::create_dir(&p);
			p
		}
		_ => {
			put("file", b"00");
			dir().join("file").join(format!("x{ext}"))
		}
	};
	let name = path.to_str().unwrap().to_owned();
	let tail = name.rsplit('/').next().unwrap_or_default().as_bytes().to_vec();
	Outcome::new(&tail).verdict(must_fail(&name))
}

// ---------------------------------------------------------------------------
// C24

pub const C24: &[Sub] = &[
	Sub {
		name: "lists of files",
		plan: Plan::Random {
			tape: 2000,
			quick: 12_000,
			thorough: 400_000,
		},
		rule: "the command-line tool run on zero to eight generated files (hex and binary; \
		       packets, mutated packets, recordings, arbitrary bytes; some named more than once): \
		       its output against what the library returns for their bytes; non-trivial with two or \
		       more files, at least one accepted and one rejected",
		run: c24_lists,
	},
	Sub {
		name: "long lists",
		plan: Plan::Random {
			tape: 600,
			quick: 80,
			thorough: 3000,
		},
		rule: "the same with 50 to 300 files, most of them named repeatedly",
		run: c24_long,
	},
];

const NAMES: [&str; 16] = [
	"a.hex",
	"b",
	"c c.hex",
	"d.bin",
	"e\"quoted\".hex",
	"f'\t.dat",
	"gäü.hex",
	"-h.hex",
	"--",
	"-",
	"--help",
	"@a.hex",
	"a=b",
	"*.hex",
	"%s{}\\n$HOME.bin",
	" ",
];

fn file_contents(t: &mut Tape) -> Vec<u8> {
	let how = t.u8();
	let edits = t.bytes(12);
	let mut d = match how % 8 {
		0..=2 => recording(t),
		3 => match t.u8() % 16 {
			0 => vec![t.u8(); 70_000],
			1..=3 => Vec::new(),
			_ => {
				let n = t.len(30);
				t.bytes(n)
			}
		},
		4 => {
			let mut p = carrier(t).to_vec();
			p.extend(enc::recordish(t, 60));
			enc::wrap(t, &p)
		}
		_ => enc::packet(t).bytes,
	};
	if how & 0x40 != 0 {
		enc::mutate(&mut Tape::new(&edits), &mut d);
		if how & 0x80 != 0 {
			enc::repair(&mut d, true);
		}
	}
	d
}

/// What is printed for one file, on the two streams
fn expected(name: &str, d: &[u8]) -> Option<(String, String, bool)> {
	obs::catch(|| match Packet::parse.parse(Bytes::new(d)) {
		Ok(p) => (format!("File {name:?}:\n{p:#?}\n"), String::new(), true),
		Err(e) => (
			format!("File {name:?}:\n"),
			format!("{}\n", e.into_inner()),
			false,
		),
	})
	.ok()
}

fn run_cli(args: &[String], cwd: &Path, together: bool) -> (Vec<u8>, Vec<u8>, Option<i32>) {
	let cli: OsString = std::env::var_os("MBUS_CLI").expect("MBUS_CLI");
	let mut c = Command::new(cli);
	c.args(args).current_dir(cwd).stdin(Stdio::null());
	if together {
		let p = cwd.join("output");
		let f = File::create(&p).expect("scratch file");
		c.stdout(f.try_clone().expect("file")).stderr(f);
		let s = c.status().expect("the command-line tool");
		(
			std::fs::read(&p).expect("scratch file"),
			Vec::new(),
			s.code(),
		)
	} else {
		let o = c.output().expect("the command-line tool");
		(o.stdout, o.stderr, o.status.code())
	}
}

fn first_difference(want: &str, got: &[u8]) -> String {
	let got = String::from_utf8_lossy(got);
	let n = want.lines().zip(got.lines()).take_while(|(a, b)| a == b).count();
	format!(
		"line {}: expected {:?}, got {:?}",
		n + 1,
		want.lines().nth(n).unwrap_or("(end)"),
		got.lines().nth(n).unwrap_or("(end)")
	)
}

fn judge_cli(t: &mut Tape, files: &[(String, Vec<u8>)], list: &[usize]) -> Outcome {
	let relative = t.bool();
	let here = dir();
	let mut args = Vec::new();
	let (mut out, mut err, mut both) = (String::new(), String::new(), String::new());
	let (mut accepted, mut rejected) = (0, 0);
	for (name, text) in files {
		put(name, text);
	}
	let mut input = Vec::new();
	for i in list {
		let (name, text) = &files[*i];
		let arg = if relative {
			name.clone()
		} else {
			here.join(name).to_str().unwrap().to_owned()
		};
		let bytes = if name.ends_with(".hex") {
			// as written by `file_of`
			let text = String::from_utf8_lossy(text);
			crate::engine::unhex(&text).expect("hex")
		} else {
			text.clone()
		};
		input.extend_from_slice(&bytes);
		let Some((o, e, ok)) = expected(&arg, &bytes) else {
			// a panic is C01's concern
			return Outcome::new(&input).nontrivial(false);
		};
		both.push_str(&o);
		both.push_str(&e);
		out.push_str(&o);
		err.push_str(&e);
		args.push(arg);
		if ok {
			accepted += 1;
		} else {
			rejected += 1;
		}
	}
	let result = Outcome::new(&input)
		.nontrivial(accepted > 0 && rejected > 0)
		.tag(match (accepted, rejected) {
			(0, 0) => "no files",
			(_, 0) => "all accepted",
			(0, _) => "all rejected",
			_ => "some of each",
		});
	let (got_out, got_err, code) = run_cli(&args, &here, false);
	if code != Some(0) {
		return result.fail(format!(
			"the tool ended with {code:?}: {}",
			String::from_utf8_lossy(&got_err)
				.lines()
				.last()
				.unwrap_or_default()
		));
	}
	if got_out == out.as_bytes() && got_err == err.as_bytes() {
		return result;
	}
	// which stream is used for what is not claimed
	let (got, _, _) = run_cli(&args, &here, true);
	if got == both.as_bytes() {
		return result;
	}
	result.fail(first_difference(&both, &got))
}

fn file_of(t: &mut Tape, name: &str, d: &[u8]) -> (String, Vec<u8>) {
	if name.ends_with(".hex") {
		// an empty hex file is not one that can be read
		let d = if d.is_empty() { &[0xE5][..] } else { d };
		let mut text = spelled(t, d).join(" ");
		text.push_str(&white(t));
		(name.to_owned(), text.into_bytes())
	} else {
		(name.to_owned(), d.to_vec())
	}
}

fn c24_lists(t: &mut Tape) -> Outcome {
	let n = t.below(7);
	let again: Vec<usize> = if n > 0 && t.chance(1, 4) {
		(0..t.range(1, 2)).map(|_| t.below(n)).collect()
	} else {
		Vec::new()
	};
	let first = t.below(NAMES.len());
	let files: Vec<_> = (0..n)
		.map(|i| {
			let d = file_contents(t);
			let name = NAMES[(first + i) % NAMES.len()];
			file_of(t, name, &d)
		})
		.collect();
	let mut list: Vec<usize> = (0..n).collect();
	for a in again {
		let at = a.min(list.len());
		list.insert(at, a);
	}
	judge_cli(t, &files, &list)
}

fn c24_long(t: &mut Tape) -> Outcome {
	let n = t.range(50, 300);
	let files: Vec<_> = (0..4)
		.map(|i| {
			let d = file_contents(t);
			file_of(t, NAMES[i], &d)
		})
		.collect();
	let list: Vec<usize> = (0..n).map(|i| (i * 7 + i / 3) % 4).collect();
	judge_cli(t, &files, &list)
}
