//! C02 envelopes, C03 checksums, C04 control and address

use super::*;
use crate::engine::{Outcome, Plan, Sub};

/// Accepted or rejected as the rules say; what comes out is not looked at
fn acceptance(d: &[u8]) -> Option<String> {
	obs::judge_packet(
		&model::packet(d),
		&match obs::packet(d) {
			Obs::Ok(_) => match model::packet(d) {
				Ok(v) => Obs::Ok(v.packet),
				Err(_) => Obs::Ok(MPacket::Other("a packet".into())),
			},
			other => other,
		},
	)
}

// ---------------------------------------------------------------------------
// C02

pub const C02: &[Sub] = &[
	Sub {
		name: "length bytes",
		plan: Plan::Enumerate {
			count: 65536 * 6,
			tail: 8,
		},
		rule: "every pair of length bytes x six relations between them and the number of bytes \
		       there are; everything else, checksum included, is right. Every case counts",
		run: c02_lengths,
	},
	Sub {
		name: "every length",
		plan: Plan::Enumerate {
			count: 253 * 64,
			tail: 300,
		},
		rule: "well-formed long frames of every length 3..=255 around arbitrary manufacturer \
		       specific bytes: all must be accepted with their bytes intact",
		run: c02_accept,
	},
	Sub {
		name: "edited envelopes",
		plan: Plan::Random {
			tape: 600,
			quick: 1_000_000,
			thorough: 30_000_000,
		},
		rule: "a generated or recorded packet with one to three edits to markers, lengths or size, \
		       its checksum made right again; non-trivial if the first byte is still one of the \
		       three start bytes",
		run: c02_edits,
	},
	Sub {
		name: "cuts and extensions",
		plan: Plan::Random {
			tape: 600,
			quick: 20_000,
			thorough: 600_000,
		},
		rule: "a generated packet cut at every point (from either end), and extended by one to four \
		       bytes: all must be rejected",
		run: c02_cuts,
	},
	Sub {
		name: "tiny strings",
		plan: Plan::Enumerate {
			count: 1 + 256 + 65536 + 3 * 65536,
			tail: 0,
		},
		rule: "every string of up to two bytes, and of three bytes beginning with a start byte",
		run: c02_tiny,
	},
	Sub {
		name: "five bytes",
		plan: Plan::Random {
			tape: 16,
			quick: 400_000,
			thorough: 10_000_000,
		},
		rule: "strings of four to ten bytes put together from start, stop and length bytes and \
		       sums; non-trivial if the first byte is a start byte",
		run: c02_small,
	},
];

fn c02_lengths(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (l1, l2) = (i as u8, (i >> 8) as u8);
	let n = match i >> 16 {
		0 => usize::from(l1),
		1 => usize::from(l2),
		2 => usize::from(l1) + 1,
		3 => usize::from(l1).saturating_sub(1),
		4 => t.below(256),
		_ => usize::from(l1) + 256,
	};
	let mut inner = vec![0x08, t.u8(), 0xA0];
	inner.resize(n, t.u8());
	let mut d = vec![0x68, l1, l2, 0x68];
	d.extend_from_slice(&inner);
	d.push(model::sum(&inner));
	d.push(0x16);
	let fine = l1 == l2 && l1 >= 3 && n == usize::from(l1);
	Outcome::new(&d)
		.tag(if fine { "well-formed" } else { "ill-formed" })
		.verdict(acceptance(&d))
}

fn c02_accept(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let len = 3 + i % 253;
	let ci = 0xA0 + (i / 253 % 24) as u8;
	let (c, _) = enc::control(t);
	let a = t.u8();
	let body = t.bytes(len - 3);
	let mut payload = vec![ci];
	payload.extend_from_slice(&body);
	let d = enc::long_frame(c, a, &payload);
	let why = match obs::packet(&d) {
		Obs::Panic(p) => Some(format!("panicked: {p}")),
		Obs::Rej(e) => Some(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Ok(MPacket::Long(_, _, MMsg::Manufacturer(c, b))) if c == ci && b == body => None,
		Obs::Ok(other) => Some(format!("decoded as {other:?}")),
	};
	Outcome::new(&d).verdict(why)
}

fn base(t: &mut Tape) -> Vec<u8> {
	if t.chance(1, 4) {
		recording(t)
	} else {
		enc::packet(t).bytes
	}
}

fn c02_edits(t: &mut Tape) -> Outcome {
	// the edits come first on the tape, so that a long packet leaves some for them
	let plan: Vec<[u8; 4]> = (0..t.range(1, 3))
		.map(|_| [t.u8(), t.u8(), t.u8(), t.u8()])
		.collect();
	let fix = t.u8();
	let mut d = base(t);
	let long = d[0] == 0x68;
	for [what, x, y, z] in plan {
		let n = d.len();
		let (x, y) = (x as usize, y);
		match what % 12 {
			0 => d[0] = [0x68, 0x10, 0xE5, y][x % 4],
			1 if n > 3 => d[3] = [0x68, 0x10, 0x16, y][x % 4],
			2 if n > 2 => d[n - 1] = [0x16, 0x68, 0xE5, y][x % 4],
			3 if n > 2 => d[1] = [d[1].wrapping_add(1), d[1].wrapping_sub(1), d[1] ^ 0x80, y][x % 4],
			4 if n > 2 => d[2] = [d[2].wrapping_add(1), d[2].wrapping_sub(1), d[2] ^ 0x80, y][x % 4],
			5 if n > 2 => {
				d[1] = [d[1].wrapping_add(1), d[1].wrapping_sub(1), d[1] ^ 0x80, y][x % 4];
				d[2] = d[1];
			}
			6 => d.truncate((x + 256 * usize::from(y)) % (n + 1)),
			7 => d.extend(std::iter::repeat_n(z, 1 + x % 6)),
			8 if n > 6 => d.insert(4 + x % (n - 5), z),
			9 if n > 6 => {
				d.remove(4 + x % (n - 6));
			}
			10 => d.insert(0, [0x68, 0x10, 0xE5, y][x % 4]),
			11 if n > 1 => {
				d.remove(0);
			}
			_ => {}
		}
		if d.is_empty() {
			d.push(z);
		}
	}
	if fix & 1 == 0 {
		enc::repair(&mut d, fix & 6 == 6);
	}
	let why = acceptance(&d);
	let known = matches!(d[0], 0x68 | 0x10 | 0xE5);
	Outcome::new(&d)
		.nontrivial(known)
		.tag(if long { "long" } else { "short or ack" })
		.tag(if model::envelope(&d) { "envelope right" } else { "envelope wrong" })
		.verdict(why)
}

fn c02_cuts(t: &mut Tape) -> Outcome {
	let tail = t.bytes(4);
	let d = base(t);
	let n = d.len() as u64;
	let mut cases = 0;
	let mut bad = None;
	let mut check = |x: Vec<u8>| {
		cases += 1;
		if bad.is_none() && !model::envelope(&x) && obs::accepts(&x) != Some(false) {
			bad = Some(x);
		}
	};
	for k in 0..d.len() {
		check(d[..k].to_vec());
		check(d[d.len() - k..].to_vec());
	}
	for k in 1..=4 {
		let mut x = d.clone();
		x.extend_from_slice(&tail[..k]);
		check(x);
		let mut x = tail[..k].to_vec();
		x.extend_from_slice(&d);
		check(x);
	}
	match bad {
		None => {
			let mut o = Outcome::block(&d, cases);
			o.nontrivial = n > 1;
			o
		}
		Some(x) => Outcome::new(&x).fail(format!(
			"not rejected, but it is an ill-formed variation of {}",
			crate::engine::hex(&d)
		)),
	}
}

fn c02_tiny(t: &mut Tape) -> Outcome {
	let i = t.index();
	let d: Vec<u8> = match i {
		0 => vec![],
		1..=256 => vec![(i - 1) as u8],
		257..=65792 => ((i - 257) as u16).to_le_bytes().to_vec(),
		_ => {
			let j = i - 65793;
			let mut v = vec![[0xE5, 0x10, 0x68][(j >> 16) as usize]];
			v.extend((j as u16).to_le_bytes());
			v
		}
	};
	Outcome::new(&d).verdict(acceptance(&d))
}

fn c02_small(t: &mut Tape) -> Outcome {
	let n = t.range(4, 10);
	let mut d = vec![t.pick(&[0x10, 0x68, 0xE5, 0x10])];
	while d.len() < n {
		let b = match t.u8() % 8 {
			0 => 0x16,
			1 => 0x68,
			2 => d.last().copied().unwrap_or(0),
			3 => (n as u8).wrapping_sub(6),
			4 => model::sum(&d[1..]),
			5 => 0x08,
			_ => t.u8(),
		};
		d.push(b);
	}
	if t.bool() {
		d[n - 1] = 0x16;
	}
	if t.bool() {
		enc::repair(&mut d, t.bool());
	}
	Outcome::new(&d)
		.tag(if model::envelope(&d) { "envelope right" } else { "envelope wrong" })
		.verdict(acceptance(&d))
}

// ---------------------------------------------------------------------------
// C03

pub const C03: &[Sub] = &[
	Sub {
		name: "every replacement at one position",
		plan: Plan::Random {
			tape: 600,
			quick: 30_000,
			thorough: 1_000_000,
		},
		rule: "an accepted packet (generated or recorded, short or long) and a position: all 255 \
		       other values of that byte must be rejected; non-trivial if the packet was accepted",
		run: c03_position,
	},
	Sub {
		name: "every position",
		plan: Plan::Random {
			tape: 600,
			quick: 20_000,
			thorough: 600_000,
		},
		rule: "an accepted packet with each byte in turn changed in four ways (lowest bit, highest \
		       bit, complement, a generated value); non-trivial if the packet was accepted",
		run: c03_sweep,
	},
	Sub {
		name: "every checksum",
		plan: Plan::Random {
			tape: 600,
			quick: 20_000,
			thorough: 600_000,
		},
		rule: "an acceptable packet with each of the 256 checksum values: exactly the sum of \
		       control, address and data is accepted",
		run: c03_sums,
	},
	Sub {
		name: "compensated changes",
		plan: Plan::Random {
			tape: 600,
			quick: 300_000,
			thorough: 10_000_000,
		},
		rule: "two bytes of an accepted manufacturer-specific frame changed by opposite amounts: \
		       still accepted, and not if the amounts differ",
		run: c03_pairs,
	},
];

fn short_or_long(t: &mut Tape) -> Vec<u8> {
	match t.u8() % 8 {
		0..=1 => {
			let (c, _) = enc::control(t);
			enc::short_frame(c, t.u8())
		}
		2 => recording(t),
		_ => {
			let ci = enc::any_ci(t);
			enc::long_packet(t, ci).bytes
		}
	}
}

fn kind(d: &[u8]) -> &'static str {
	if d[0] == 0x68 {
		"long frame"
	} else {
		"short frame"
	}
}

fn corrupted(d: &[u8], bad: Option<Vec<u8>>, cases: u64) -> Outcome {
	match bad {
		None => {
			let ok = obs::accepts(d) == Some(true);
			let mut o = Outcome::block(d, cases).tag(kind(d));
			o.nontrivial = ok;
			o
		}
		Some(x) => Outcome::new(&x).fail(format!(
			"{}, though one byte differs from the accepted {}",
			obs::packet(&x).describe(),
			crate::engine::hex(d)
		)),
	}
}

fn c03_position(t: &mut Tape) -> Outcome {
	let at = t.u16() as usize;
	let d = short_or_long(t);
	let at = at % d.len();
	if obs::accepts(&d) != Some(true) {
		return Outcome::new(&d).nontrivial(false).tag("not accepted");
	}
	let mut x = d.clone();
	let mut bad = None;
	for k in 1..=255u8 {
		x[at] = d[at] ^ k;
		if obs::accepts(&x) != Some(false) {
			bad = Some(x.clone());
			break;
		}
	}
	corrupted(&d, bad, 255)
}

fn c03_sweep(t: &mut Tape) -> Outcome {
	let r = t.u8();
	let d = short_or_long(t);
	if obs::accepts(&d) != Some(true) {
		return Outcome::new(&d).nontrivial(false).tag("not accepted");
	}
	let mut x = d.clone();
	let mut bad = None;
	'all: for at in 0..d.len() {
		for k in [1, 0x80, 0xFF, r.wrapping_add(at as u8)] {
			if k == 0 {
				continue;
			}
			x[at] = d[at] ^ k;
			if obs::accepts(&x) != Some(false) {
				bad = Some(x.clone());
				break 'all;
			}
		}
		x[at] = d[at];
	}
	let n = 4 * d.len() as u64;
	corrupted(&d, bad, n)
}

fn c03_sums(t: &mut Tape) -> Outcome {
	let mut d = short_or_long(t);
	let n = d.len();
	// a good checksum by our own reckoning, whatever the generator made of it
	enc::repair(&mut d, false);
	if obs::accepts(&d) != Some(true) {
		return match model::packet(&d) {
			Ok(v) if !v.lenient => Outcome::new(&d).fail("not accepted with its right checksum"),
			_ => Outcome::new(&d).nontrivial(false).tag("not accepted"),
		};
	}
	let right = d[n - 2];
	let mut x = d.clone();
	for c in 0..=255u8 {
		x[n - 2] = c;
		if c != right && obs::accepts(&x) != Some(false) {
			return Outcome::new(&x).fail(format!(
				"{} with checksum {c:02X} instead of {right:02X}",
				obs::packet(&x).describe()
			));
		}
	}
	Outcome::block(&d, 256).tag(kind(&d))
}

fn c03_pairs(t: &mut Tape) -> Outcome {
	let delta = t.u8();
	let skew = if t.bool() { 0 } else { t.u8() };
	let (i, j) = (t.u16() as usize, t.u16() as usize);
	let n = t.range(2, 252);
	let mut payload = vec![0xA0 + t.u8() % 24];
	payload.extend(t.bytes(n));
	let mut d = enc::long_frame(0x08, t.u8(), &payload);
	let first = 7;
	let (i, j) = (first + i % n, first + j % n);
	d[i] = d[i].wrapping_add(delta);
	d[j] = d[j].wrapping_sub(delta).wrapping_add(skew);
	let want = skew == 0;
	let got = obs::accepts(&d);
	let o = Outcome::new(&d)
		.nontrivial(i != j)
		.tag(if want { "sum kept" } else { "sum changed" });
	if got == Some(want) {
		o
	} else {
		o.fail(format!("accepted: {got:?}, must be {want}"))
	}
}

// ---------------------------------------------------------------------------
// C04

pub const C04: &[Sub] = &[
	Sub {
		name: "every control byte and address",
		plan: Plan::Enumerate {
			count: 2 * 65536,
			tail: 32,
		},
		rule: "all 256 control bytes x 256 addresses, in a short frame and in a long frame with \
		       generated contents. Every case counts",
		run: c04_all,
	},
	Sub {
		name: "control bytes around any message",
		plan: Plan::Random {
			tape: 600,
			quick: 300_000,
			thorough: 10_000_000,
		},
		rule: "a message of any kind and length under an arbitrary control byte and address; \
		       non-trivial if the control byte is not the usual 08",
		run: c04_any,
	},
	Sub {
		name: "services are told apart",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 0,
		},
		rule: "every pair of control bytes: two accepted ones are reported alike only if they are \
		       equal",
		run: c04_pairs,
	},
];

fn only_link(c: u8, a: u8, d: &[u8]) -> Option<String> {
	let expected = model::control(c);
	let got = match obs::packet(d) {
		Obs::Ok(MPacket::Short(x, y)) => Obs::Ok((x, y)),
		Obs::Ok(MPacket::Long(x, y, _)) => Obs::Ok((x, y)),
		Obs::Ok(other) => return Some(format!("decoded as {other:?}")),
		Obs::Rej(e) => Obs::Rej(e),
		Obs::Panic(p) => Obs::Panic(p),
	};
	obs::judge(
		&expected,
		&got,
		|m, (x, y)| {
			if m != x {
				Some(format!("control byte {c:02X}: expected {m:?}, got {x:?}"))
			} else if *y != a {
				Some(format!("address {a}: got {y}"))
			} else {
				None
			}
		},
		false,
	)
}

fn c04_all(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (c, a) = (i as u8, (i >> 8) as u8);
	let d = if i >> 16 == 0 {
		enc::short_frame(c, a)
	} else {
		let n = t.below(20);
		let mut p = vec![0xA0];
		p.extend(t.bytes(n));
		enc::long_frame(c, a, &p)
	};
	Outcome::new(&d)
		.tag(if model::control(c).is_ok() { "meaningful" } else { "reserved" })
		.verdict(only_link(c, a, &d))
}

fn c04_any(t: &mut Tape) -> Outcome {
	let (c, a) = (t.u8(), t.u8());
	let ci = enc::any_ci(t);
	let m = enc::message(t, ci);
	let d = enc::long_frame(c, a, &m.bytes);
	Outcome::new(&d)
		.nontrivial(c != 0x08)
		.tag(if model::control(c).is_ok() { "meaningful" } else { "reserved" })
		.verdict(only_link(c, a, &d))
}

fn c04_pairs(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (c, d) = (i as u8, (i >> 8) as u8);
	let (x, y) = (enc::short_frame(c, 0), enc::short_frame(d, 0));
	let o = Outcome::new(&[c, d]);
	match (obs::packet(&x), obs::packet(&y)) {
		(Obs::Ok(p), Obs::Ok(q)) if (p == q) != (c == d) && !same_by_standard(c, d) => {
			o.fail(format!("control bytes {c:02X} and {d:02X} give {p:?} and {q:?}"))
		}
		(Obs::Panic(p), _) => o.fail(format!("panicked: {p}")),
		_ => o,
	}
}

/// None: the tables give each control byte a meaning of its own
fn same_by_standard(c: u8, d: u8) -> bool {
	c != d && model::control(c).is_ok() && model::control(c) == model::control(d)
}
