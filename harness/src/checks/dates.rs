//! C16 dates (types F and G), C17 times and summer time rules (types I, J and K)

use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use winnow::prelude::*;
use winnow::Bytes;

use super::*;
use crate::engine::{Outcome, Plan, Sub};

#[derive(Clone, Copy)]
struct Kind {
	/// DIF
	dif: u8,
	vif: &'static [u8],
	model: fn(&[u8]) -> model::R<MData>,
	direct: fn(&[u8]) -> Obs<MData>,
}

fn run<'a, T>(
	d: &'a [u8],
	parse: impl Parser<&'a Bytes, T, libmbus::parse::error::MBusError>,
	conv: fn(&T) -> MData,
) -> Obs<MData> {
	let mut parse = parse;
	match obs::catch(|| {
		parse
			.parse(Bytes::new(d))
			.map_err(|e| obs::inner(e.into_inner()))
	}) {
		Err(p) => Obs::Panic(p),
		Ok(Err(e)) => Obs::Rej(e),
		Ok(Ok(v)) => Obs::Ok(conv(&v)),
	}
}

const F: Kind = Kind {
	dif: 0x04,
	vif: &[0x6D],
	model: model::type_f,
	direct: |d| run(d, TypeFDateTime::parse, obs::conv_f),
};
const G: Kind = Kind {
	dif: 0x02,
	vif: &[0x6C],
	model: model::type_g,
	direct: |d| run(d, TypeGDate::parse, obs::conv_g),
};
const I: Kind = Kind {
	dif: 0x06,
	vif: &[0x6D],
	model: model::type_i,
	direct: |d| run(d, TypeIDateTime::parse, obs::conv_i),
};
const J: Kind = Kind {
	dif: 0x03,
	vif: &[0x6D],
	model: model::type_j,
	direct: |d| run(d, TypeJTime::parse, obs::conv_j),
};
const K: Kind = Kind {
	dif: 0x04,
	vif: &[0xFD, 0x72],
	model: model::type_k,
	direct: |d| run(d, TypeKDST::parse, obs::conv_k),
};

fn date_body(k: &Kind, d: &[u8]) -> Vec<u8> {
	let mut b = vec![k.dif];
	b.extend_from_slice(k.vif);
	b.extend_from_slice(d);
	b
}

/// Judge one value, by itself; every so often also as a record in a packet
fn judge_one(k: &Kind, d: &[u8], packet: bool) -> Option<String> {
	let expected = (k.model)(d);
	let why = obs::judge(&expected, &(k.direct)(d), diff_data, false);
	if why.is_some() || !packet {
		return why;
	}
	in_packet(k, d, &expected)
}

fn in_packet(k: &Kind, d: &[u8], expected: &model::R<MData>) -> Option<String> {
	let got = match decode_body(CARRIERS[0], &date_body(k, d)) {
		Obs::Ok(f) if f.records.len() == 1 => {
			Obs::Ok(f.records.into_iter().next().unwrap().data)
		}
		Obs::Ok(f) => Obs::Ok(MData::Other(format!("{f:?}"))),
		Obs::Rej(e) => Obs::Rej(e),
		Obs::Panic(p) => Obs::Panic(p),
	};
	obs::judge(expected, &got, diff_data, false).map(|w| format!("in a packet: {w}"))
}

fn tag(e: &model::R<MData>) -> &'static str {
	if e.is_ok() {
		"a date or time"
	} else {
		"to be rejected"
	}
}

/// All values whose bytes but the first are those of the index
fn block(k: &Kind, rest: &[u8]) -> Outcome {
	let mut good = false;
	for v in 0..=255u8 {
		let mut d = vec![v];
		d.extend_from_slice(rest);
		good |= (k.model)(&d).is_ok();
		if let Some(w) = judge_one(k, &d, v % 16 == rest[0] % 16) {
			return Outcome::new(&d).fail(w);
		}
	}
	Outcome::block(rest, 256).tag(if good {
		"blocks with dates or times"
	} else {
		"blocks without"
	})
}

/// Every four byte value that ends in these two bytes and is a date or a rule
fn valid_block<T>(
	k: &Kind,
	last: [u8; 2],
	parse: fn(&mut &Bytes) -> libmbus::parse::error::MBResult<T>,
	conv: fn(&T) -> MData,
) -> Outcome {
	let values = || (0..=0xFFFFu16).map(move |i| [i as u8, (i >> 8) as u8, last[0], last[1]]);
	let (mut n, mut first) = (0, None);
	// all at once, and only if that fails one after another
	let fine = obs::catch(|| {
		values().all(|d| match (k.model)(&d) {
			Err(_) => true,
			Ok(want) => {
				n += 1;
				first.get_or_insert(d);
				let mut input = Bytes::new(&d[..]);
				parse(&mut input).is_ok_and(|v| conv(&v) == want) && input.is_empty()
			}
		})
	});
	if !matches!(fine, Ok(true)) {
		for d in values().filter(|d| (k.model)(d).is_ok()) {
			if let Some(w) = judge_one(k, &d, false) {
				return Outcome::new(&d).fail(w);
			}
		}
	}
	match first {
		Some(d) => Outcome::block(&last, n).verdict(in_packet(k, &d, &(k.model)(&d))),
		None => Outcome::block(&last, 1).nontrivial(false),
	}
}

/// What fields are when nobody has set them, at limits and on special days
fn landmarks(t: &mut Tape) -> Vec<u8> {
	let mut i = t.index() as usize;
	let mut next = |from: &[u8]| {
		let v = from[i % from.len()];
		i /= from.len();
		v
	};
	let second = next(&[0, 1, 59, 63]);
	let minute = next(&[0, 30, 59, 63]);
	let hour = next(&[0, 2, 3, 23, 31]);
	let weekday = next(&[0, 1, 7]);
	let day = next(&[0, 1, 28, 29, 30, 31]);
	let month = next(&[0, 1, 2, 3, 12, 15]);
	let year = next(&[0, 1, 24, 80, 81, 99, 127]);
	let week = next(&[0, 1, 53]);
	let shift = next(&[0, 1, 2, 3]);
	let flags = next(&[0, 1, 2, 3, 4, 5, 6, 7]);
	vec![
		second | (flags & 3) << 6,
		minute | (flags & 4) << 4,
		hour | weekday << 5,
		day | (year & 7) << 5,
		month | (year >> 3) << 4,
		week | shift << 6,
	]
}
const LANDMARKS: u64 = 4 * 4 * 5 * 3 * 6 * 6 * 7 * 3 * 4 * 8;

/// A generated value with one field changed, as a record between others
fn edited(t: &mut Tape, k: &Kind, make: fn(&mut Tape) -> (Vec<u8>, MData)) -> Outcome {
	let c = carrier(t);
	let (at, how, with) = (t.u8() as usize, t.u8(), t.u8());
	let (mut d, want) = make(t);
	let mut body = date_body(k, &d);
	body.extend(SENTINEL);
	// as encoded
	let got = decode_body(c, &body);
	let why = match got {
		Obs::Ok(f) if f.records.len() == 2 => diff_data(&want, &f.records[0].data),
		Obs::Ok(f) => Some(format!("not two records: {f:?}")),
		Obs::Rej(e) => Some(format!(
			"rejected ({}), must be {want:?}",
			e.trim().replace('\n', " / ")
		)),
		Obs::Panic(p) => Some(format!("panicked: {p}")),
	};
	if why.is_some() {
		return Outcome::new(&response(c, &body)).verdict(why);
	}
	// and changed
	let n = d.len();
	let b = &mut d[at % n];
	match how % 4 {
		0 => *b = with,
		1 => *b ^= 1 << (with % 8),
		2 => *b |= 0x1F,
		_ => *b &= 0xE0 | with,
	}
	let mut body = date_body(k, &d);
	body.extend(SENTINEL);
	body_outcome(c, &body, data_part)
}

// ---------------------------------------------------------------------------
// C16

pub const C16: &[Sub] = &[
	Sub {
		name: "every type G value",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 0,
		},
		rule: "all 65536 two byte dates, by themselves and as a record. Every case counts",
		run: |t| {
			let d = (t.index() as u16).to_le_bytes();
			let e = model::type_g(&d);
			Outcome::new(&d).tag(tag(&e)).verdict(judge_one(&G, &d, true))
		},
	},
	Sub {
		name: "type F values",
		plan: Plan::Stride {
			count: 1 << 24,
			tail: 0,
			quick: 120_000,
		},
		rule: "four byte date-times: all 2^32 in the thorough tier, an even spread in the quick \
		       one (blocks of 256 values of the first byte), each by itself and one in 16 also as \
		       a record. Every case counts",
		run: |t| {
			let i = t.index().to_le_bytes();
			block(&F, &i[..3])
		},
	},
	Sub {
		name: "type F dates",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 0,
		},
		rule: "all four byte values that are date-times: every minute, hour, day, month, year, \
		       century and summer time, each by itself (in blocks of the same date) and one in \
		       each block as a record. Every date-time counts",
		run: |t| valid_block(&F, (t.index() as u16).to_le_bytes(), TypeFDateTime::parse, obs::conv_f),
	},
	Sub {
		name: "type F: minute, hour and flags",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 4,
		},
		rule: "all values of the first two bytes of a date-time with a generated date",
		run: |t| {
			let i = (t.index() as u16).to_le_bytes();
			let (g, _) = enc::date_g(t);
			let d = [i[0], i[1], g[0], g[1]];
			let e = model::type_f(&d);
			Outcome::new(&d).tag(tag(&e)).verdict(judge_one(&F, &d, true))
		},
	},
	Sub {
		name: "type F: date and century",
		plan: Plan::Enumerate {
			count: 65536 * 8,
			tail: 4,
		},
		rule: "all values of the last two bytes of a date-time, in all four centuries with and \
		       without summer time, with a generated time",
		run: |t| {
			let i = t.index().to_le_bytes();
			let (j, _) = enc::time_j(t);
			let d = [j[1], j[2] | i[2] << 5, i[0], i[1]];
			let e = model::type_f(&d);
			Outcome::new(&d).tag(tag(&e)).verdict(judge_one(&F, &d, true))
		},
	},
	Sub {
		name: "encoded and edited type F",
		plan: Plan::Random {
			tape: 48,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "date-times encoded from their fields, and the same with one byte changed, as a \
		       record between others",
		run: |t| edited(t, &F, enc::date_f),
	},
	Sub {
		name: "encoded and edited type G",
		plan: Plan::Random {
			tape: 48,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "dates encoded from their fields, and the same with one byte changed, as a record \
		       between others",
		run: |t| edited(t, &G, enc::date_g),
	},
];

// ---------------------------------------------------------------------------
// C17

pub const C17: &[Sub] = &[
	Sub {
		name: "every type J value",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 0,
		},
		rule: "all 2^24 three byte times (blocks of 256), each by itself and one in 16 also as a \
		       record. Every case counts",
		run: |t| {
			let i = t.index().to_le_bytes();
			block(&J, &i[..2])
		},
	},
	Sub {
		name: "type K values",
		plan: Plan::Stride {
			count: 1 << 24,
			tail: 0,
			quick: 60_000,
		},
		rule: "four byte summer time rules: all 2^32 in the thorough tier, an even spread in the \
		       quick one (blocks of 256 values of the first byte). Every case counts",
		run: |t| {
			let i = t.index().to_le_bytes();
			block(&K, &i[..3])
		},
	},
	Sub {
		name: "type K rules",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 0,
		},
		rule: "all four byte values that are summer time rules, each by itself (in blocks of the \
		       same end) and one in each block as a record. Every rule counts",
		run: |t| valid_block(&K, (t.index() as u16).to_le_bytes(), TypeKDST::parse, obs::conv_k),
	},
	Sub {
		name: "type I: landmarks",
		plan: Plan::Enumerate {
			count: LANDMARKS,
			tail: 0,
		},
		rule: "six byte date-times whose fields are all at limits, wildcards or on special days",
		run: |t| {
			let d = landmarks(t);
			let e = model::type_i(&d);
			Outcome::new(&d).tag(tag(&e)).verdict(judge_one(&I, &d, d[0] % 16 == d[5] % 16))
		},
	},
	Sub {
		name: "type K: pairs of bytes",
		plan: Plan::Enumerate {
			count: 6 * 65536,
			tail: 16,
		},
		rule: "all values of each pair of bytes of a generated summer time rule",
		run: |t| pairs(t, &K, enc::dst_k),
	},
	Sub {
		name: "type I: pairs of bytes",
		plan: Plan::Enumerate {
			count: 15 * 65536,
			tail: 24,
		},
		rule: "all values of each pair of bytes of a generated six byte date-time",
		run: |t| pairs(t, &I, enc::date_i),
	},
	Sub {
		name: "encoded and edited type I",
		plan: Plan::Random {
			tape: 48,
			quick: 300_000,
			thorough: 30_000_000,
		},
		rule: "six byte date-times encoded from their fields, and the same with one byte changed, \
		       as a record between others",
		run: |t| edited(t, &I, enc::date_i),
	},
	Sub {
		name: "encoded and edited type J",
		plan: Plan::Random {
			tape: 48,
			quick: 150_000,
			thorough: 5_000_000,
		},
		rule: "times encoded from their fields, and the same with one byte changed, as a record \
		       between others",
		run: |t| edited(t, &J, enc::time_j),
	},
	Sub {
		name: "encoded and edited type K",
		plan: Plan::Random {
			tape: 48,
			quick: 300_000,
			thorough: 20_000_000,
		},
		rule: "summer time rules encoded from their fields, and the same with one byte changed, as \
		       a record between others",
		run: |t| edited(t, &K, enc::dst_k),
	},
	Sub {
		name: "type I values",
		plan: Plan::Random {
			tape: 16,
			quick: 300_000,
			thorough: 100_000_000,
		},
		rule: "arbitrary six byte values",
		run: |t| {
			let mut d = t.bytes(6);
			if t.bool() {
				d[1] &= 0x7F;
			}
			let e = model::type_i(&d);
			Outcome::new(&d).tag(tag(&e)).verdict(judge_one(&I, &d, true))
		},
	},
];

fn pairs(t: &mut Tape, k: &Kind, make: fn(&mut Tape) -> (Vec<u8>, MData)) -> Outcome {
	let i = t.index();
	let (mut d, _) = make(t);
	let n = d.len();
	let mut which = (i >> 16) as usize;
	'found: for a in 0..n {
		for b in a + 1..n {
			if which == 0 {
				d[a] = i as u8;
				d[b] = (i >> 8) as u8;
				break 'found;
			}
			which -= 1;
		}
	}
	let e = (k.model)(&d);
	Outcome::new(&d).tag(tag(&e)).verdict(judge_one(k, &d, true))
}
