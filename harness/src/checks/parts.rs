//! C27 what decoding costs, C28 which bytes each part takes

use std::fmt::Debug;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{
	dump_remaining_vifes, parse_vif_byte, ValueInfoBlock,
};
use libmbus::parse::error::MBusError;
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader};
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use libmbus::parse::types::BitsInput;
use winnow::prelude::*;
use winnow::{Bytes, Partial};

use super::*;
use crate::alloc::{self, Allocated};
use crate::engine::{Outcome, Plan, Sub};
use crate::tables::{Form, Sign};

// ---------------------------------------------------------------------------
// The parts that end by themselves

#[derive(Clone, Copy, PartialEq, Debug)]
enum Part {
	Packet,
	Short,
	Long,
	Record,
	F,
	G,
	I,
	J,
	K,
	Bcd(usize),
	Invalid(usize),
	Signed(usize),
	Unsigned(usize),
	Binary(bool, usize),
	Latin(usize),
	Ascii,
	Real,
	Dib,
	Vib,
	Vif,
	Vifes,
}

fn any_part(t: &mut Tape) -> Part {
	let n = t.u8();
	match t.below(21) {
		0 => Part::Packet,
		1 => Part::Short,
		2 => Part::Long,
		3 => Part::F,
		4 => Part::G,
		5 => Part::I,
		6 => Part::J,
		7 => Part::K,
		8 => Part::Bcd(usize::from(n % 10)),
		9 => Part::Invalid(usize::from(n % 12)),
		10 => Part::Signed(usize::from(n % 9)),
		11 => Part::Unsigned(usize::from(n % 9)),
		12 => Part::Binary(n & 0x80 != 0, usize::from(n % 16)),
		13 => Part::Latin(usize::from(n)),
		14 => Part::Ascii,
		15 => Part::Real,
		16 => Part::Dib,
		17 => Part::Vib,
		18 => Part::Vif,
		19 => Part::Vifes,
		_ => Part::Record,
	}
}

/// Bytes that are this part
fn whole(t: &mut Tape, p: Part) -> Vec<u8> {
	let chain = |t: &mut Tape, max: usize| {
		let n = t.range(1, max);
		let mut b = t.bytes(n);
		let last = b.len() - 1;
		for x in &mut b[..last] {
			*x |= 0x80;
		}
		b[last] &= 0x7F;
		b
	};
	match p {
		Part::Packet => {
			if t.bool() {
				vec![0xE5]
			} else {
				let (c, _) = enc::control(t);
				enc::short_frame(c, t.u8())
			}
		}
		Part::Short => enc::header(t, Form::Short).0,
		Part::Long => enc::header(t, Form::Long).0,
		Part::Record => enc::record(t, 100).bytes,
		Part::F => enc::date_f(t).0,
		Part::G => enc::date_g(t).0,
		Part::I => enc::date_i(t).0,
		Part::J => enc::time_j(t).0,
		Part::K => enc::dst_k(t).0,
		Part::Bcd(n) => enc::bcd_digits(t, n, true).0,
		Part::Signed(n) => enc::integer(t, n, Sign::Signed).0,
		Part::Unsigned(n) => enc::integer(t, n, Sign::Unsigned).0,
		Part::Invalid(n) | Part::Binary(_, n) | Part::Latin(n) => t.data(n),
		Part::Ascii => {
			let n = t.len(255);
			let mut b = vec![n as u8];
			b.extend(t.bytes(n).iter().map(|c| c & 0x7F));
			b
		}
		Part::Real => t.bytes(4),
		Part::Dib => {
			let code = t.pick(&enc::CODES);
			enc::dib(t, code).bytes
		}
		Part::Vib => enc::vib(t).bytes,
		Part::Vif => t.bytes(1),
		Part::Vifes => chain(t, 12),
	}
}

/// How many bytes it takes up, if it is one
fn size(p: Part, d: &[u8]) -> Option<usize> {
	let mut c = model::Cur::new(d);
	Some(match p {
		Part::Packet => match d.first()? {
			0xE5 => 1,
			0x10 => 5,
			_ => return None,
		},
		Part::Short => 4,
		Part::Long => 12,
		Part::F | Part::K | Part::Real => 4,
		Part::G => 2,
		Part::I => 6,
		Part::J => 3,
		Part::Bcd(n)
		| Part::Invalid(n)
		| Part::Signed(n)
		| Part::Unsigned(n)
		| Part::Binary(_, n)
		| Part::Latin(n) => n,
		Part::Ascii => 1 + usize::from(*d.first()?),
		Part::Vif => 1,
		Part::Vifes => 1 + d.iter().position(|b| b & 0x80 == 0)?,
		Part::Dib => {
			model::dib(&mut c).ok()?;
			c.p
		}
		Part::Vib => {
			model::vib(&mut c).ok()?;
			c.p
		}
		Part::Record => {
			model::record(&mut c).ok()?;
			c.p
		}
	})
}

type Taken = Option<(String, usize)>;

fn run<'a, T: Debug>(d: &'a [u8], mut p: impl Parser<&'a Bytes, T, MBusError>) -> Taken {
	let mut rest = Bytes::new(d);
	let v = p.parse_next(&mut rest).ok()?;
	Some((format!("{v:?}"), consumed(d, rest)))
}

fn run_bits<T: Debug>(
	d: &[u8],
	mut p: impl FnMut(&mut BitsInput<'_>) -> Result<T, MBusError>,
) -> Taken {
	let mut rest: BitsInput = (Bytes::new(d), 0);
	let v = p(&mut rest).ok()?;
	// whole bytes only
	let n = if rest.1 == 0 { consumed(d, rest.0) } else { usize::MAX };
	Some((format!("{v:?}"), n))
}

/// What is left has to be the end of what there was
fn consumed(d: &[u8], rest: &[u8]) -> usize {
	match d.len().checked_sub(rest.len()) {
		Some(n) if std::ptr::eq(d[n..].as_ptr(), rest.as_ptr()) => n,
		_ => usize::MAX,
	}
}

/// Decode one part from the front of something
fn decode(p: Part, d: &[u8]) -> Taken {
	match p {
		Part::Packet => {
			let mut rest = Bytes::new(d);
			let v = Packet::parse.parse_next(&mut rest).ok()?;
			Some((format!("{v:?}"), consumed(d, rest)))
		}
		Part::Short => run(d, ShortHeader::parse),
		Part::Long => run(d, LongHeader::parse),
		Part::Record => run(d, Record::parse),
		Part::F => run(d, TypeFDateTime::parse),
		Part::G => run(d, TypeGDate::parse),
		Part::I => run(d, TypeIDateTime::parse),
		Part::J => run(d, TypeJTime::parse),
		Part::K => run(d, TypeKDST::parse),
		Part::Bcd(n) => run(d, parse_bcd(n)),
		Part::Invalid(n) => run(d, parse_invalid_bcd(n)),
		Part::Signed(n) => run(d, parse_binary_signed(n)),
		Part::Unsigned(n) => run(d, parse_binary_unsigned(n)),
		Part::Binary(unsigned, n) => run(d, parse_binary(unsigned, n)),
		Part::Latin(n) => run(d, parse_latin1(n)),
		Part::Ascii => run(d, parse_length_prefix_ascii),
		Part::Real => run(d, parse_real),
		Part::Dib => run_bits(d, DataInfoBlock::parse),
		Part::Vib => run_bits(d, ValueInfoBlock::parse),
		Part::Vif => run_bits(d, parse_vif_byte),
		Part::Vifes => run_bits(d, dump_remaining_vifes),
	}
}

/// C01 sees to panics
fn observe(p: Part, d: &[u8]) -> Result<Taken, ()> {
	obs::catch(|| decode(p, d)).map_err(|_| ())
}

// ---------------------------------------------------------------------------
// C28

pub const C28: &[Sub] = &[
	Sub {
		name: "a part, cut and followed",
		plan: Plan::Random {
			tape: 400,
			quick: 400_000,
			thorough: 30_000_000,
		},
		rule: "each part decoder on a generated part, sometimes damaged, followed by arbitrary bytes: \
		       what it takes must decode alike without what follows and with other bytes in its \
		       place, be as long as the reference says, and be rejected when cut anywhere. \
		       Non-trivial if it decodes",
		run: c28_part,
	},
	Sub {
		name: "arbitrary bytes",
		plan: Plan::Random {
			tape: 100,
			quick: 400_000,
			thorough: 30_000_000,
		},
		rule: "the same for arbitrary or record-like bytes. Non-trivial if they decode",
		run: c28_bytes,
	},
	Sub {
		name: "parts in a row",
		plan: Plan::Random {
			tape: 900,
			quick: 100_000,
			thorough: 8_000_000,
		},
		rule: "up to 12 parts of any kinds in one buffer, decoded in turn from what the one before \
		       left: each must come out as on its own. Every case counts",
		run: c28_row,
	},
	Sub {
		name: "packets in a row",
		plan: Plan::Random {
			tape: 400,
			quick: 100_000,
			thorough: 5_000_000,
		},
		rule: "acknowledgements and short frames in one buffer, mostly with a long frame as the last, \
		       decoded in turn from a slice, a byte string and a complete streaming buffer. Every \
		       case counts",
		run: c28_packets,
	},
];

fn takes_its_own(p: Part, d: &[u8], other: &[u8]) -> Result<bool, Option<String>> {
	let go = |d: &[u8]| observe(p, d).map_err(|()| None);
	let Some((value, n)) = go(d)? else { return Ok(false) };
	let no = |why: String| Err(Some(format!("{p:?}: {why}")));
	if n > d.len() {
		return no("does not leave the end of its input".into());
	}
	if let Some(want) = size(p, d) {
		if n != want {
			return no(format!("takes {n} bytes, not {want}"));
		}
	}
	let own = &d[..n];
	match go(own)? {
		Some((v, k)) if v == value && k == n => {}
		x => {
			return no(format!(
				"takes {n} bytes for {value}, but gives {x:?} if there are no more"
			))
		}
	}
	let mut followed = own.to_vec();
	followed.extend_from_slice(other);
	// nor does it matter where the bytes lie
	match super::whole::Place::at(d.len() * 7 + other.len()).with(&followed, go)? {
		Some((v, k)) if v == value && k == n => {}
		x => {
			return no(format!(
				"takes {n} bytes for {value}, but gives {x:?} if others follow"
			))
		}
	}
	for k in 0..n {
		if let Some(x) = go(&d[..k])? {
			return no(format!("takes {n} bytes, but gives {x:?} with {k} of them"));
		}
	}
	Ok(true)
}

fn c28_outcome(p: Part, d: &[u8], other: &[u8]) -> Outcome {
	let mut input = format!("{p:?} ").into_bytes();
	input.extend_from_slice(d);
	let out = Outcome::new(&input);
	match takes_its_own(p, d, other) {
		Ok(decoded) => out
			.nontrivial(decoded)
			.tag(if decoded { "decodes" } else { "does not decode" }),
		Err(why) => out.verdict(why),
	}
}

fn c28_part(t: &mut Tape) -> Outcome {
	let p = any_part(t);
	let damage = t.chance(1, 8);
	let n = t.below(6);
	let after = t.data(n);
	let n = t.below(20);
	let other = t.data(n);
	let edits = t.bytes(if damage { 12 } else { 0 });
	let mut d = whole(t, p);
	d.extend(after);
	if damage {
		enc::mutate(&mut Tape::new(&edits), &mut d);
	}
	c28_outcome(p, &d, &other)
}

fn c28_bytes(t: &mut Tape) -> Outcome {
	let p = any_part(t);
	let n = t.below(10);
	let other = t.data(n);
	let d = match t.u8() % 3 {
		0 => enc::recordish(t, 60),
		1 => {
			let n = t.below(40);
			t.data(n)
		}
		_ => {
			let n = t.below(30);
			(0..n).map(|_| t.edge_u8()).collect()
		}
	};
	c28_outcome(p, &d, &other)
}

fn c28_row(t: &mut Tape) -> Outcome {
	let k = t.range(2, 12);
	let mut row = Vec::new();
	for _ in 0..k {
		let p = any_part(t);
		row.push((p, whole(t, p)));
	}
	let n = t.below(4);
	let after = t.data(n);
	let mut d: Vec<u8> = row.iter().flat_map(|(_, b)| b.clone()).collect();
	d.extend(&after);
	let out = Outcome::new(&d);
	let mut at = 0;
	for (i, (p, own)) in row.iter().enumerate() {
		let (Ok(alone), Ok(here)) = (observe(*p, own), observe(*p, &d[at..])) else {
			return out;
		};
		let Some((v, n)) = alone else {
			// whether it has to decode is for others to say
			return out.nontrivial(i > 1).tag("cut short");
		};
		if here.as_ref() != Some(&(v.clone(), n)) || n != own.len() {
			return out.fail(format!(
				"part {} ({p:?}) of the row: on its own {v} from {n} of {} bytes, here {here:?}",
				i + 1,
				own.len()
			));
		}
		at += n;
	}
	out
}

fn c28_packets(t: &mut Tape) -> Outcome {
	let k = t.range(1, 10);
	let mut d = Vec::new();
	let mut want = Vec::new();
	for i in 0..k {
		let b = if i + 1 == k && t.chance(3, 4) {
			enc::packet(t).bytes
		} else {
			whole(t, Part::Packet)
		};
		let Obs::Ok(p) = obs::packet(&b) else {
			// not one it supports
			break;
		};
		want.push(p);
		d.extend(b);
	}
	let out = Outcome::new(&d).nontrivial(want.len() > 1);
	for how in 0..3 {
		let got = obs::catch(|| {
			let mut all = Vec::new();
			let (mut a, mut b, mut c) = (&d[..], Bytes::new(&d[..]), Partial::new(&d[..]));
			let _ = c.complete();
			for _ in 0..want.len() {
				let p = match how {
					0 => Packet::parse.parse_next(&mut a),
					1 => Packet::parse.parse_next(&mut b),
					_ => Packet::parse.parse_next(&mut c),
				};
				match p {
					Ok(p) => all.push(obs::conv_packet(&p)),
					Err(_) => break,
				}
			}
			let left = match how {
				0 => a.len(),
				1 => b.len(),
				_ => c.len(),
			};
			(all, left)
		});
		let Ok((got, left)) = got else { return out };
		if got != want || left != 0 {
			return out.fail(format!(
				"packets in one buffer (way {how}): on their own {want:?}, in a row {got:?} and \
				 {left} bytes left"
			));
		}
	}
	out
}

// ---------------------------------------------------------------------------
// C27

pub const C27: &[Sub] = &[
	Sub {
		name: "packets",
		plan: Plan::Random {
			tape: 600,
			quick: 200_000,
			thorough: 20_000_000,
		},
		rule: "generated, recorded and mutated packets, and arbitrary bodies in valid frames: what \
		       decoding (and reporting) allocates, and with the instrumented library the steps it \
		       takes, is bounded by a constant and a multiple of the length. Every case counts",
		run: c27_packets,
	},
	Sub {
		name: "parts",
		plan: Plan::Random {
			tape: 300,
			quick: 300_000,
			thorough: 20_000_000,
		},
		rule: "the same for the part decoders on parts, damaged parts and arbitrary bytes, with every \
		       size they can be asked for. Every case counts",
		run: c27_parts,
	},
	Sub {
		name: "growth",
		plan: Plan::Random {
			tape: 120,
			quick: 12_000,
			thorough: 1_000_000,
		},
		rule: "a generated pattern repeated, mostly with another one repeated behind it or an end, up to 255 bytes for packets and \
		       8192 for messages, bodies, records and commands: from half of it to the whole the \
		       number of steps grows no more than three times as much as from a quarter to half, and \
		       memory no more than twelvefold from a quarter to the whole. Non-trivial if the cost \
		       differs at all",
		run: c27_growth,
	},
	Sub {
		name: "time",
		plan: Plan::Enumerate {
			count: SHAPES * 4,
			tail: 40,
		},
		rule: "the decoders that take input of any length (a body of records, fillers or \
		       manufacturer data, a message, a chain of VIFEs, text and digits of a given size), on \
		       up to 512 thousand bytes: four times the input does not take more than ten times \
		       the processor time and half a second, in any of three attempts. Every case counts",
		run: c27_time,
	},
];

#[derive(Clone, Copy)]
struct Cost {
	memory: Allocated,
	/// Edges taken in the library, with the instrumented build
	steps: Option<u64>,
}

fn cost<T>(f: impl FnOnce() -> T) -> Option<Cost> {
	let ((r, memory), steps) = cov::measure(|| alloc::measure(|| obs::catch(f)));
	// panics are for C01 to report
	r.ok()?;
	Some(Cost { memory, steps })
}

/// To begin with, and for each byte
///
/// At the most, the library as it is allocates 500 bytes of memory for a byte of
/// input (a record of two bytes is a hundred times as long when decoded, and goes
/// through buffers that grow) and takes 75 steps.
const BYTES: (u64, u64) = (200_000, 2_000);
const CALLS: (u64, u64) = (2_000, 10);
const STEPS: (u64, u64) = (50_000, 400);

fn too_much(c: &Cost, n: usize) -> Option<String> {
	let bound = |(a, b): (u64, u64)| a + b * n as u64;
	if c.memory.bytes > bound(BYTES) {
		return Some(format!("allocates {} bytes of memory", c.memory.bytes));
	}
	if c.memory.calls > bound(CALLS) {
		return Some(format!("allocates memory {} times", c.memory.calls));
	}
	match c.steps {
		Some(s) if s > bound(STEPS) => Some(format!("takes {s} steps")),
		_ => None,
	}
}

fn packet_cost(d: &[u8]) -> Option<Cost> {
	cost(|| {
		Packet::parse
			.parse(Bytes::new(d))
			.map_err(|e| e.into_inner().to_string().len())
			.is_ok()
	})
}

fn c27_packets(t: &mut Tape) -> Outcome {
	let d = match t.u8() % 4 {
		0 => {
			let edits = t.bytes(24);
			let mut d = if t.chance(1, 4) { recording(t) } else { enc::packet(t).bytes };
			enc::mutate(&mut Tape::new(&edits), &mut d);
			enc::repair(&mut d, true);
			d
		}
		1 => {
			let mut body = carrier(t).to_vec();
			body.extend(enc::recordish(t, ROOM));
			enc::wrap(t, &body)
		}
		2 => {
			let ci = enc::any_ci(t);
			let n = t.len(enc::MAX_PAYLOAD - 1);
			let mut body = vec![ci];
			body.extend(t.bytes(n));
			enc::wrap(t, &body)
		}
		_ => enc::packet(t).bytes,
	};
	let out = Outcome::new(&d);
	let Some(c) = packet_cost(&d) else { return out };
	out.verdict(too_much(&c, d.len()).map(|w| format!("a packet of {} bytes: {w}", d.len())))
}

fn rendered<T>(r: Result<T, MBusError>) -> bool {
	match r {
		Ok(_) => true,
		Err(e) => e.to_string().is_empty(),
	}
}

fn c27_parts(t: &mut Tape) -> Outcome {
	let which = t.u8() % 8;
	let p = any_part(t);
	let damage = t.u8() % 3;
	let edits = t.bytes(8);
	let mut d = match damage {
		0 if which > 3 => whole(t, p),
		0 | 1 => enc::recordish(t, 120),
		_ => {
			let n = t.len(200);
			t.data(n)
		}
	};
	if damage == 1 {
		enc::mutate(&mut Tape::new(&edits), &mut d);
	}
	let b = &d[..];
	let c = match which {
		0 => cost(|| rendered(MBusMessage::parse(&mut Bytes::new(b)))),
		1 => cost(|| rendered(Frame::parse(&mut Bytes::new(b)))),
		2 => cost(|| rendered(ApplicationMessage::parse(&mut Bytes::new(b)))),
		3 => cost(|| rendered(ApplicationErrorMessage::parse(&mut Bytes::new(b)))),
		_ => cost(|| decode(p, b).is_some()),
	};
	let what = match which {
		0 => "message".into(),
		1 => "body".into(),
		2 => "command".into(),
		3 => "error message".into(),
		_ => format!("{p:?}"),
	};
	let mut input = format!("{what} ").into_bytes();
	input.extend_from_slice(b);
	let out = Outcome::new(&input);
	let Some(c) = c else { return out };
	// a size asked for is part of the input
	out.verdict(too_much(&c, b.len()).map(|w| format!("{what} of {} bytes: {w}", b.len())))
}

fn c27_growth(t: &mut Tape) -> Outcome {
	let which = t.below(6);
	let full = match which {
		0 => t.range(128, 240),
		_ => t.pick(&[512usize, 2048, 8192, 8192]),
	};
	// in step with the records behind it
	let mut regular = true;
	let front: Vec<u8> = match which {
		0 => t.pick(&CARRIERS).to_vec(),
		1 if t.chance(1, 4) => {
			regular = false;
			vec![enc::any_ci(t)]
		}
		1 => t.pick(&CARRIERS).to_vec(),
		3 => t.pick(&[&[0x00u8][..], &[0x80], &[0x00, 0xFF], &[0x00, 0xFD], &[0x00, 0xFC, 0x01, 0x41]])
			.to_vec(),
		4 => vec![t.pick(&[0xF0u8, 0xF1, 0xFF])],
		_ => Vec::new(),
	};
	let pattern = match t.u8() % 6 {
		0 => {
			// read as records, these may be as long as 450 bytes
			regular &= full > 4000;
			t.bytes(1)
		}
		1..=2 => enc::record(t, 24).bytes,
		3 => {
			regular = false;
			enc::recordish(t, 24)
		}
		4 => vec![0x2F],
		_ => t.pick(&[
			&[0x2Fu8][..],
			&[0x80],
			&[0xFF],
			&[0x00, 0x78],
			&[0x01, 0x78, 0x00],
			&[0x0F],
			&[0x00],
			&[0x2F, 0x00, 0x78],
			&[0x0D, 0x78, 0x00],
		])
		.to_vec(),
	};
	let pattern = if pattern.is_empty() { vec![0] } else { pattern };
	// another one behind it, and an end of its own
	let second = match t.u8() % 4 {
		0 => enc::record(t, 24).bytes,
		1 => t.pick(&[&[0x2Fu8][..], &[0x0F], &[0x1F], &[0x00, 0x78]]).to_vec(),
		_ => Vec::new(),
	};
	let end = match t.u8() % 4 {
		0 => enc::record(t, 12).bytes,
		1 => t.bytes(1),
		_ => Vec::new(),
	};
	// single bytes make up records of several of them
	if pattern.len() == 1 && !matches!(pattern[0], 0x2F | 0x0F | 0x1F) {
		regular &= second.is_empty() && end.is_empty();
	}
	let quarter = (full.saturating_sub(end.len()) / 4 / (pattern.len() + second.len())).max(1);
	let at = |times: usize| {
		let mut d = front.clone();
		for p in [&pattern, &second] {
			for _ in 0..times {
				d.extend_from_slice(p);
			}
		}
		d.extend_from_slice(&end);
		d
	};
	let measure = |times: usize| -> Option<(Cost, usize)> {
		let d = at(times);
		let d = &d[..];
		let c = match which {
			0 => {
				let f = enc::long_frame(0x08, 0x01, &d[..d.len().min(enc::MAX_PAYLOAD)]);
				packet_cost(&f)
			}
			1 => cost(|| rendered(MBusMessage::parse(&mut Bytes::new(d)))),
			2 => cost(|| rendered(Frame::parse(&mut Bytes::new(d)))),
			3 => cost(|| rendered(Record::parse(&mut Bytes::new(d)))),
			4 => cost(|| rendered(ApplicationErrorMessage::parse(&mut Bytes::new(d)))),
			_ => cost(|| rendered(ApplicationMessage::parse(&mut Bytes::new(d)))),
		};
		c.map(|c| (c, d.len()))
	};
	let mut input = vec![which as u8, (full >> 8) as u8, full as u8];
	input.extend(at(1));
	let out = Outcome::new(&input);
	let (Some((a, _)), Some((b, _)), Some((c, n))) =
		(measure(quarter), measure(2 * quarter), measure(4 * quarter))
	else {
		return out;
	};
	let mut out = out.nontrivial(a.memory.bytes != c.memory.bytes || a.steps != c.steps);
	if let Some(w) = too_much(&c, n) {
		return out.fail(format!("{n} bytes: {w}"));
	}
	if !regular {
		return out.tag("irregular");
	}
	// twice as much again from half to the whole, if it is in proportion, and four
	// times as much if it grows with the square
	let jumps = |a: u64, b: u64, c: u64, slack: u64| {
		c.saturating_sub(b) > 3 * b.saturating_sub(a) + slack
	};
	if let (Some(a), Some(b), Some(c)) = (a.steps, b.steps, c.steps) {
		out = out.tag("steps counted");
		if jumps(a, b, c, 1_000) {
			return out.fail(format!(
				"a quarter, half and all of {n} bytes take {a}, {b} and {c} steps"
			));
		}
	}
	// buffers grow by doubling: four times the records may need eight times the room,
	// and were copied on the way; the square is sixteen times as much
	let (a, c) = (a.memory.bytes, c.memory.bytes);
	if c > 12 * a + 10_000 {
		return out.fail(format!(
			"a quarter and all of {n} bytes allocate {a} and {c} bytes of memory"
		));
	}
	out
}

// ---------------------------------------------------------------------------
// What neither steps nor memory show: blocks of bytes moved about

const SHAPES: u64 = 16;
const LONG: usize = 512 << 10;

#[repr(C)]
struct Timespec {
	seconds: i64,
	nanoseconds: i64,
}

extern "C" {
	fn clock_gettime(clock: i32, to: *mut Timespec) -> i32;
}

/// What this thread has used
fn processor_time() -> f64 {
	const THREAD: i32 = 3;
	let mut t = Timespec {
		seconds: 0,
		nanoseconds: 0,
	};
	// SAFETY: as declared by Linux on 64-bit machines
	let r = unsafe { clock_gettime(THREAD, &mut t) };
	assert_eq!(r, 0, "clock_gettime");
	t.seconds as f64 + t.nanoseconds as f64 / 1e9
}

fn c27_time(t: &mut Tape) -> Outcome {
	let shape = t.index() % SHAPES;
	let pattern = match shape {
		0 => vec![0x2F],
		1 => t.pick(&[&[0x00u8, 0x78][..], &[0x2F, 0x00, 0x78], &[0x01, 0x78, 0x00]]).to_vec(),
		2 | 6 => enc::record(t, 200).bytes,
		3 | 7..=9 => t.bytes(1),
		4 | 5 => {
			let n = t.range(1, 8);
			t.bytes(n)
		}
		_ => {
			let n = t.range(1, 8);
			t.bytes(n).iter().map(|b| b | 0x80).collect()
		}
	};
	let pattern = if pattern.is_empty() { vec![0] } else { pattern };
	let front: Vec<u8> = match shape {
		3 => vec![t.pick(&[0x0F, 0x1F])],
		4 => vec![t.pick(&[0x51, 0x52, 0xA0, 0x90, 0x71, 0x05])],
		5 => vec![t.pick(&[0xF1, 0xF8, 0xFF])],
		6 | 7 => t.pick(&CARRIERS).to_vec(),
		9 => vec![0x00, 0x7C, 0x03, 0x61, 0x62, 0x63],
		10 => vec![0x00, 0xFF],
		11 => vec![0x00, 0xFD],
		_ => Vec::new(),
	};
	let end = match t.u8() % 3 {
		0 => enc::record(t, 12).bytes,
		1 => t.bytes(1),
		_ => Vec::new(),
	};
	let take = |n: usize| {
		let mut d = front.clone();
		while d.len() + end.len() < n {
			d.extend_from_slice(&pattern);
		}
		d.truncate(n - end.len());
		d.extend_from_slice(&end);
		d
	};
	let time = |d: &[u8]| -> Option<f64> {
		let start = processor_time();
		obs::catch(|| match shape {
			0..=3 => rendered(Frame::parse(&mut Bytes::new(d))),
			4 | 6 | 7 => rendered(MBusMessage::parse(&mut Bytes::new(d))),
			5 => rendered(ApplicationErrorMessage::parse(&mut Bytes::new(d))),
			8 => rendered(ApplicationMessage::parse(&mut Bytes::new(d))),
			9..=11 => rendered(Record::parse(&mut Bytes::new(d))),
			12 => decode(Part::Vifes, d).is_some(),
			13 => rendered(parse_latin1(d.len()).parse_next(&mut Bytes::new(d))),
			14 => rendered(parse_invalid_bcd(d.len()).parse_next(&mut Bytes::new(d))),
			_ => rendered(parse_invalid_bcd(d.len()).parse_next(&mut Bytes::new(&d[..d.len() - 1]))),
		})
		.ok()?;
		Some(processor_time() - start)
	};
	let mut input = vec![shape as u8];
	input.extend(&front);
	input.extend(&pattern);
	input.extend(&end);
	let out = Outcome::new(&input);
	// the shorter ones first: they do not take for ever whatever is wrong
	for n in [LONG / 16, LONG / 4, LONG] {
		let (small, large) = (take(n / 4), take(n));
		let mut attempts = 0;
		loop {
			let (Some(a), Some(b)) = (time(&small), time(&large)) else { return out };
			if b <= 10.0 * a + 0.5 {
				break;
			}
			attempts += 1;
			if attempts == 3 || b > 5.0 {
				return out.fail(format!(
					"{} bytes take {a:.3} s of processor time and {} bytes {b:.3} s",
					small.len(),
					large.len(),
				));
			}
		}
	}
	out
}
