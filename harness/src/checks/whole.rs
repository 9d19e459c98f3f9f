//! C01 no panics, C21 reports, C22 ways of supplying, C25 round trip and
//! differential; and the self-test of the reference

use std::fmt::Write;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader};
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use winnow::error::{
	AddContext, ErrMode, ErrorConvert, FromExternalError, ParserError, StrContext, StrContextValue,
};
use winnow::prelude::*;
use winnow::stream::Stream;
use winnow::{Bytes, LocatingSlice, Partial};

use super::*;
use crate::engine::{Outcome, Plan, Sub};
use crate::tables::{Form, Kind};

// ---------------------------------------------------------------------------
// C01

pub const C01: &[Sub] = &[
	Sub {
		name: "mutated packets",
		plan: Plan::Random {
			tape: 600,
			quick: 500_000,
			thorough: 40_000_000,
		},
		rule: "generated or recorded packets with one to three edits, mostly with lengths and \
		       checksum made right again; non-trivial if what there is still has a valid envelope",
		run: c01_mutated,
	},
	Sub {
		name: "payloads",
		plan: Plan::Random {
			tape: 400,
			quick: 500_000,
			thorough: 40_000_000,
		},
		rule: "valid frames around an arbitrary CI byte, a header of any form, complete or cut, and \
		       record-like or arbitrary bytes",
		run: c01_payload,
	},
	Sub {
		name: "DIF and VIF",
		plan: Plan::Enumerate {
			count: 65536 * 2,
			tail: 40,
		},
		rule: "every DIF x every VIF byte, followed by generated bytes, in a response; and the same \
		       cut at every length. Every case counts",
		run: c01_dif_vif,
	},
	Sub {
		name: "VIF extensions",
		plan: Plan::Enumerate {
			count: 16 * 4 * 256,
			tail: 40,
		},
		rule: "every data field x every code in each extension table, with generated data",
		run: c01_vife,
	},
	Sub {
		name: "every CI",
		plan: Plan::Enumerate {
			count: 256 * 256,
			tail: 300,
		},
		rule: "each of the 256 CI bytes, with 256 generated bodies, decoded as a packet and as a \
		       message on its own",
		run: c01_ci,
	},
	Sub {
		name: "parts",
		plan: Plan::Random {
			tape: 200,
			quick: 500_000,
			thorough: 30_000_000,
		},
		rule: "each public part decoder (message, frame, record, headers, application messages, \
		       dates, numbers of every size, text) on arbitrary, record-like or mutated bytes",
		run: c01_parts,
	},
	Sub {
		name: "long inputs",
		plan: Plan::Random {
			tape: 64,
			quick: 4_000,
			thorough: 200_000,
		},
		rule: "inputs of up to 500000 bytes, made by repeating a short generated pattern, given to \
		       the packet, message, frame and record decoders on a thread with the usual 2 MB of \
		       stack",
		run: c01_long,
	},
	Sub {
		name: "characters of several bytes",
		plan: Plan::Random {
			tape: 300,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "plain text units and text values of any length whose bytes are characters of one to \
		       four bytes in UTF-8, whole or broken, in either order; non-trivial with a character \
		       of two or more",
		run: c01_text,
	},
	Sub {
		name: "arbitrary bytes",
		plan: Plan::Random {
			tape: 300,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "arbitrary bytes, half of them with one of the start bytes in front; non-trivial in \
		       that case",
		run: c01_bytes,
	},
];

fn report(e: &MBusError) -> String {
	let mut out = e.to_string();
	let _ = write!(out, "{e:?}");
	for c in e.context() {
		let _ = write!(out, "{c} {c:?}");
	}
	if let Some(c) = e.cause() {
		let _ = write!(out, "{c}");
	}
	out
}

fn shown<T: std::fmt::Debug>(r: Result<T, MBusError>) -> usize {
	match r {
		Ok(v) => format!("{v:?}").len() + format!("{v:#?}").len(),
		Err(e) => report(&e).len(),
	}
}

/// Decode, and print what comes of it: nothing may panic
fn survives<T: std::fmt::Debug>(
	what: &str,
	d: &[u8],
	decode: impl Fn(&[u8]) -> Result<T, MBusError>,
) -> Option<String> {
	obs::catch(|| shown(decode(d)))
		.err()
		.map(|p| format!("{what}: panicked: {p}"))
}

fn packet_survives(d: &[u8]) -> Option<String> {
	survives("packet", d, |d| {
		Packet::parse
			.parse(Bytes::new(d))
			.map_err(|e| e.into_inner())
	})
}

fn part<T>(r: Result<T, MBusError>) -> Result<T, MBusError> {
	r
}

macro_rules! part {
	($what:expr, $d:expr, $p:expr) => {
		survives($what, $d, |d| part($p.parse_next(&mut Bytes::new(d))))
	};
}

fn message_survives(d: &[u8]) -> Option<String> {
	part!("message", d, MBusMessage::parse)
}

fn some_packet(t: &mut Tape) -> Vec<u8> {
	if t.chance(1, 4) {
		recording(t)
	} else {
		enc::packet(t).bytes
	}
}

fn c01_mutated(t: &mut Tape) -> Outcome {
	let repairs = t.u8() % 8;
	let edits = t.bytes(24);
	let mut d = some_packet(t);
	enc::mutate(&mut Tape::new(&edits), &mut d);
	if repairs < 7 {
		enc::repair(&mut d, repairs < 6);
	}
	Outcome::new(&d)
		.nontrivial(model::envelope(&d))
		.verdict(packet_survives(&d))
}

fn c01_payload(t: &mut Tape) -> Outcome {
	let ci = if t.bool() { t.u8() } else { enc::any_ci(t) };
	let mut p = vec![ci];
	let form = match t.u8() % 4 {
		0 => Form::None,
		1 => Form::Short,
		2 => Form::Long,
		_ => crate::tables::ci(ci).map_or(Form::Long, |(_, f)| f),
	};
	let (h, _) = enc::header(t, form);
	p.extend(h);
	if t.chance(1, 8) {
		let keep = t.below(p.len()) + 1;
		p.truncate(keep);
	} else if t.chance(1, 8) {
		let at = t.below(p.len());
		p[at] = t.edge_u8();
	}
	let room = enc::MAX_PAYLOAD - p.len();
	let body = if t.chance(3, 4) {
		enc::recordish(t, room)
	} else {
		let n = t.len(room);
		t.data(n)
	};
	p.extend(body);
	let d = enc::wrap(t, &p);
	Outcome::new(&d).verdict(packet_survives(&d).or_else(|| message_survives(&p)))
}

fn cut_and_whole(d: &[u8]) -> (u64, Option<String>) {
	let mut why = None;
	let mut n = 0;
	for k in 0..=d.len() {
		n += 1;
		why = why.or_else(|| packet_survives(&response(CARRIERS[0], &d[..k])));
		why = why.or_else(|| part!("record", &d[..k], Record::parse));
	}
	(n, why)
}

fn c01_dif_vif(t: &mut Tape) -> Outcome {
	let i = t.index();
	let mut body = vec![i as u8, (i >> 8) as u8];
	if i >> 16 == 0 {
		body.extend(t.bytes(28));
		let d = response(CARRIERS[0], &body);
		Outcome::new(&d).verdict(
			packet_survives(&d).or_else(|| part!("record", &body, Record::parse)),
		)
	} else {
		body.extend(t.bytes(11));
		let (n, why) = cut_and_whole(&body);
		let mut out = Outcome::block(&response(CARRIERS[0], &body), n).verdict(why);
		out.nontrivial = true;
		out
	}
}

fn c01_vife(t: &mut Tape) -> Outcome {
	let i = t.index();
	let dif = (i & 15) as u8 | (t.u8() & 0x70);
	let code = (i >> 6) as u8;
	let mut body = vec![dif];
	match (i >> 4) & 3 {
		0 => body.push(0xFD),
		1 => body.push(0xFB),
		2 => body.extend([0xFD, 0xFD]),
		_ => body.push(0xFC),
	}
	body.push(code);
	body.extend(t.bytes(24));
	let d = response(CARRIERS[0], &body);
	Outcome::new(&d).verdict(packet_survives(&d).or_else(|| part!("frame", &body, Frame::parse)))
}

const WIDE: [char; 16] = [
	'\u{80}', 'é', 'ß', '\u{7FF}', '\u{800}', '€', '℃', '\u{FEFF}', '\u{200F}', '\u{301}', '\u{FFFD}',
	'\u{FFFF}', '\u{10000}', '😀', '𝟘', '\u{10FFFF}',
];

/// Bytes that are characters in UTF-8, most of them wide or most of them not
pub fn utf8(t: &mut Tape, max: usize) -> Vec<u8> {
	let n = t.len(max);
	let wide = 1 + t.below(12);
	let mut out = Vec::new();
	while out.len() < n {
		let ch = if t.chance(1, wide) {
			if t.bool() {
				t.pick(&WIDE)
			} else {
				char::from_u32(t.u32() % 0x11_0000).unwrap_or('°')
			}
		} else {
			char::from(0x20 + t.u8() % 0x5F)
		};
		let mut b = [0; 4];
		out.extend(ch.encode_utf8(&mut b).as_bytes());
	}
	// not in the middle of a character, unless there is no room
	if out.len() > max {
		let mut n = max;
		while std::str::from_utf8(&out[..n]).is_err() {
			n -= 1;
		}
		out.truncate(n);
	}
	out
}

fn c01_text(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let unit = t.chance(3, 4);
	let mut text = utf8(t, if unit { 220 } else { 191 });
	if t.chance(1, 8) && !text.is_empty() {
		let at = t.below(text.len());
		text[at] = t.u8();
	}
	if t.chance(1, 4) {
		text.reverse();
	}
	let mut body = if unit {
		let vifes = t.below(3);
		let mut b = vec![0x01, 0x7C | if vifes > 0 { 0x80 } else { 0 }, text.len() as u8];
		b.extend(&text);
		for k in 0..vifes {
			b.push(t.u8() & 0x7F | if k + 1 < vifes { 0x80 } else { 0 });
		}
		b.push(t.u8());
		b
	} else {
		let mut b = vec![0x0D, 0x78, text.len() as u8];
		b.extend(&text);
		b
	};
	body.extend(enc::recordish(t, 12));
	body.truncate(enc::MAX_PAYLOAD - 13);
	let d = response(c, &body);
	Outcome::new(&d)
		.nontrivial(text.iter().any(|b| *b >= 0xC2))
		.tag(if unit { "unit" } else { "value" })
		.verdict(packet_survives(&d).or_else(|| part!("record", &body, Record::parse)))
}

fn c01_ci(t: &mut Tape) -> Outcome {
	let i = t.index();
	let mut p = vec![i as u8];
	let n = t.len(enc::MAX_PAYLOAD - 1);
	match t.u8() % 4 {
		0 => p.extend(t.bytes(n)),
		1 => {
			let (h, _) = enc::header(t, Form::Short);
			p.extend(h);
			p.extend(t.bytes(n));
		}
		2 => {
			let (h, _) = enc::header(t, Form::Long);
			p.extend(h);
			p.extend(t.bytes(n));
		}
		_ => {
			let (h, _) = enc::header(t, Form::Long);
			p.extend(h);
			p.extend(enc::recordish(t, 100));
		}
	}
	p.truncate(enc::MAX_PAYLOAD);
	let d = enc::wrap(t, &p);
	Outcome::new(&d).verdict(packet_survives(&d).or_else(|| message_survives(&p)))
}

fn c01_parts(t: &mut Tape) -> Outcome {
	let which = t.below(19);
	let size = t.u8();
	let d = match t.u8() % 4 {
		0 => {
			let n = t.len(64);
			t.bytes(n)
		}
		1 => enc::recordish(t, 120),
		2 => {
			let mut d = enc::frame(t, 100).bytes;
			enc::mutate(t, &mut d);
			d
		}
		_ => {
			let n = t.below(24);
			(0..n).map(|_| t.edge_u8()).collect()
		}
	};
	let d = &d[..];
	let mut input = vec![which as u8, size];
	input.extend_from_slice(d);
	let why = match which {
		0 => message_survives(d),
		1 => part!("frame", d, Frame::parse),
		2 => part!("record", d, Record::parse),
		3 => part!("application message", d, ApplicationMessage::parse),
		4 => part!("application error", d, ApplicationErrorMessage::parse),
		5 => part!("short header", d, ShortHeader::parse),
		6 => part!("long header", d, LongHeader::parse),
		7 => part!("type F", d, TypeFDateTime::parse),
		8 => part!("type G", d, TypeGDate::parse),
		9 => part!("type I", d, TypeIDateTime::parse),
		10 => part!("type J", d, TypeJTime::parse),
		11 => part!("type K", d, TypeKDST::parse),
		// more than nine bytes of BCD is documented not to be supported
		12 => part!("BCD", d, parse_bcd(usize::from(size % 10))),
		13 => part!("signed", d, parse_binary_signed(usize::from(size % 9))),
		14 => part!("unsigned", d, parse_binary_unsigned(usize::from(size % 9))),
		15 => part!("binary", d, parse_binary(size & 0x80 != 0, usize::from(size % 9))),
		16 => part!("invalid BCD", d, parse_invalid_bcd(usize::from(size))),
		17 => part!("latin-1", d, parse_latin1(usize::from(size)))
			.or_else(|| part!("ASCII", d, parse_length_prefix_ascii)),
		_ => part!("real", d, parse_real),
	};
	Outcome::new(&input).verdict(why)
}

fn c01_long(t: &mut Tape) -> Outcome {
	let which = t.below(5);
	let n = match t.u8() % 4 {
		0 => t.range(250, 270),
		1 => t.range(500, 5000),
		2 => t.range(60000, 70000),
		_ => 1 << t.range(17, 19),
	};
	let pattern = match t.u8() % 5 {
		0 => t.bytes(1),
		// one extension after another
		3 => (0..t.range(1, 4)).map(|_| t.u8() | 0x80).collect(),
		1 => enc::record(t, 40).bytes,
		2 => enc::recordish(t, 40),
		_ => t.pick(&[&[0x2Fu8][..], &[0x80], &[0xFF], &[0x00, 0xFD, 0xFD], &[0x0F], &[0x00]])
			.to_vec(),
	};
	let mut d: Vec<u8> = match which {
		0 => vec![0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x78],
		1 => vec![t.u8()],
		_ => Vec::new(),
	};
	match t.u8() % 4 {
		0 => {}
		1 => d.push(t.u8() & 0x7F),
		2 => d.extend([t.u8() & 0x7F, t.u8() | 0x80]),
		_ => {
			let n = t.range(1, 6);
			d.extend(t.data(n));
		}
	}
	let pattern = if pattern.is_empty() { vec![0] } else { pattern };
	while d.len() < n {
		d.extend_from_slice(&pattern);
	}
	if which == 0 {
		enc::repair(&mut d, false);
	}
	// on a thread such as anyone starts: the stack of the harness's own is a large one
	let judge = || match which {
		0 => packet_survives(&d),
		1 => message_survives(&d),
		2 => part!("frame", &d, Frame::parse),
		3 => part!("record", &d, Record::parse),
		_ => part!("application message", &d, ApplicationMessage::parse),
	};
	let why = std::thread::scope(|s| {
		let thread = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, judge);
		thread.expect("thread").join().unwrap()
	});
	Outcome::new(&d[..d.len().min(4000)]).verdict(why)
}

fn c01_bytes(t: &mut Tape) -> Outcome {
	let start = t.pick(&[0x68u8, 0x10, 0xE5, 0, 0, 0]);
	let n = t.len(280);
	let mut d = Vec::new();
	if start != 0 {
		d.push(start);
	}
	d.extend(t.data(n));
	Outcome::new(&d)
		.nontrivial(start != 0)
		.verdict(packet_survives(&d))
}

// ---------------------------------------------------------------------------
// C21

pub const C21: &[Sub] = &[
	Sub {
		name: "anything rejected",
		plan: Plan::Random {
			tape: 600,
			quick: 700_000,
			thorough: 30_000_000,
		},
		rule: "mutated packets, payloads and cut packets; non-trivial if rejected",
		run: c21_any,
	},
	Sub {
		name: "faults inside a record",
		plan: Plan::Random {
			tape: 500,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "a valid frame with a response whose records are damaged; non-trivial if the \
		       reference decoder places the fault in a record",
		run: c21_record,
	},
	Sub {
		name: "faults inside a header",
		plan: Plan::Random {
			tape: 80,
			quick: 300_000,
			thorough: 10_000_000,
		},
		rule: "a valid frame around a header that is cut or has a damaged field, under every CI \
		       with a header; non-trivial if the reference decoder places the fault in the header",
		run: c21_header,
	},
	Sub {
		name: "the part of a frame at fault",
		plan: Plan::Random {
			tape: 400,
			quick: 200_000,
			thorough: 5_000_000,
		},
		rule: "a valid long or short frame, or a header under every CI that has one, with exactly one \
		       fault (cut at a field, or that field damaged): the report names the field. Every case \
		       counts",
		run: c21_part,
	},
	Sub {
		name: "the part of a record at fault",
		plan: Plan::Random {
			tape: 400,
			quick: 300_000,
			thorough: 8_000_000,
		},
		rule: "valid records followed by one with exactly one fault in its DIF, DIFEs, VIF, VIFEs, \
		       length or value: the report names that part, within the record. Every case counts",
		run: c21_record_part,
	},
	Sub {
		name: "underlying causes",
		plan: Plan::Random {
			tape: 80,
			quick: 100_000,
			thorough: 3_000_000,
		},
		rule: "plain text units that are not UTF-8 and negative identification numbers, rejected \
		       because a conversion fails: the report starts with what that conversion says",
		run: c21_cause,
	},
	Sub {
		name: "errors made by hand",
		plan: Plan::Random {
			tape: 120,
			quick: 100_000,
			thorough: 3_000_000,
		},
		rule: "an error with none or one cause and up to 12 items (labels, computed labels, \
		       expectations, failed assertions), or one made of winnow's own error: its items come \
		       back in the order they were added, and the report has a line for each. Every case \
		       counts",
		run: c21_made,
	},
];

/// The labels of a report, innermost first, with their line numbers
struct Report {
	text: String,
	labels: Vec<String>,
	cause: Option<String>,
}

fn rejected(d: &[u8]) -> Result<Option<Report>, String> {
	// surplus bytes after something complete are not for the decoder to report
	let surplus = match d.first() {
		Some(0xE5) => d.len() > 1,
		Some(0x10) => d.len() > 5,
		_ => false,
	};
	if surplus {
		return Ok(None);
	}
	let r = obs::catch(|| match Packet::parse.parse(Bytes::new(d)) {
		Ok(_) => Ok(None),
		Err(e) => {
			let e = e.into_inner();
			check_rendering(&e)
		}
	});
	match r {
		// C01's concern
		Err(_) => Ok(None),
		Ok(r) => r,
	}
}

/// The text against the context and cause
fn check_rendering(e: &MBusError) -> Result<Option<Report>, String> {
	let text = e.to_string();
	let mut want: Vec<String> = Vec::new();
	let cause = e.cause().map(|c| c.to_string());
	if let Some(c) = &cause {
		want.extend(c.lines().map(str::to_owned));
	}
	let mut labels = Vec::new();
	for c in e.context() {
		let (enclosing, line) = match c {
			MBusContext::Label(l) => (true, format!("invalid {l}")),
			MBusContext::ComputedLabel(l) => (true, format!("invalid {l}")),
			MBusContext::Assertion(a) => (true, format!("assertion failed: {a}")),
			MBusContext::Expected(v) => (false, format!("expected {v}")),
			other => (false, format!("{other}")),
		};
		if enclosing {
			labels.push(line.clone());
		}
		let depth = labels.len().saturating_sub(1);
		want.push(format!("{}{line}", " ".repeat(depth)));
	}
	let got: Vec<&str> = text.lines().collect();
	if text.trim().is_empty() || labels.is_empty() {
		return Err(format!("the report says nothing: {text:?} for {e:?}"));
	}
	if got != want {
		return Err(format!("the report is {text:?}, must be {want:?}"));
	}
	Ok(Some(Report {
		text,
		labels,
		cause,
	}))
}

/// What the outermost item has to name
fn frame_kind(d: &[u8]) -> &'static str {
	match d.first() {
		Some(0x68) => "long frame",
		Some(0x10) => "short frame",
		_ => "frame",
	}
}

fn check_report(d: &[u8], r: &Report) -> Option<String> {
	let kind = frame_kind(d);
	let last = r.labels.last().unwrap();
	if !last.contains(kind) {
		return Some(format!("the outermost item does not name a {kind}: {:?}", r.text));
	}
	None
}

fn c21_any(t: &mut Tape) -> Outcome {
	let how = t.u8();
	let edits = t.bytes(24);
	let mut d = some_packet(t);
	match how % 4 {
		0 => {
			let n = usize::from(u16::from_le_bytes([edits[0], edits[1]])) % (d.len() + 1);
			d.truncate(n);
		}
		_ => enc::mutate(&mut Tape::new(&edits), &mut d),
	}
	if how & 0xF0 < 0xC0 {
		enc::repair(&mut d, how & 0x80 == 0);
	}
	let out = Outcome::new(&d);
	match rejected(&d) {
		Err(why) => out.fail(why),
		Ok(None) => out.nontrivial(false),
		Ok(Some(r)) => out.tag(frame_kind(&d)).verdict(check_report(&d, &r)),
	}
}

/// Where the reference decoder finds fault with the contents of a valid frame
#[derive(PartialEq, Clone, Copy)]
enum Fault {
	Elsewhere,
	ShortHeader,
	LongHeader,
	Record,
}

fn fault(d: &[u8]) -> Fault {
	let n = d.len();
	if !model::envelope(d)
		|| d[0] != 0x68
		|| model::sum(&d[4..n - 2]) != d[n - 2]
		|| model::control(d[4]).is_err()
	{
		return Fault::Elsewhere;
	}
	let Some((kind, form)) = crate::tables::ci(d[6]) else {
		return Fault::Elsewhere;
	};
	let body = &d[7..n - 2];
	let mut c = model::Cur::new(body);
	match model::header(form, &mut c) {
		Err(Stop::Reject(_)) => {
			return match form {
				Form::Short => Fault::ShortHeader,
				_ => Fault::LongHeader,
			}
		}
		Err(Stop::Open(_)) => return Fault::Elsewhere,
		Ok(_) => {}
	}
	let rest = &body[c.p..];
	let bad = match kind {
		Kind::Response => matches!(model::frame(rest), Err(Stop::Reject(_))),
		Kind::Error => {
			rest.first() == Some(&0xF0)
				&& matches!(
					model::record(&mut model::Cur::new(&rest[1..])),
					Err(Stop::Reject(_))
				)
		}
		_ => false,
	};
	if bad {
		Fault::Record
	} else {
		Fault::Elsewhere
	}
}

/// An item naming `word` somewhere between the innermost and the outermost
fn names(r: &Report, word: &str) -> Option<String> {
	let n = r.labels.len();
	match r.labels[..n - 1].iter().position(|l| l.contains(word)) {
		Some(0) if word != "record" => Some(format!(
			"the fault is in some part of a {word}, which the report does not name: {:?}",
			r.text
		)),
		Some(_) => None,
		None => Some(format!(
			"the fault is in a {word}, which the report does not say: {:?}",
			r.text
		)),
	}
}

fn located(d: &[u8]) -> Outcome {
	let out = Outcome::new(d);
	let word = match fault(d) {
		Fault::Elsewhere => return out.nontrivial(false).tag("fault elsewhere, or none"),
		Fault::ShortHeader => "short header",
		Fault::LongHeader => "long header",
		Fault::Record => "record",
	};
	match rejected(d) {
		Err(why) => out.fail(why),
		// whether it is rejected is for other properties
		Ok(None) => out.nontrivial(false).tag("not rejected"),
		Ok(Some(r)) => out
			.tag(word)
			.verdict(check_report(d, &r).or_else(|| names(&r, word))),
	}
}

fn c21_record(t: &mut Tape) -> Outcome {
	let how = t.u8();
	let edits = t.bytes(24);
	let mut p = match how % 8 {
		0 => vec![0x70, 0xF0],
		_ => carrier(t).to_vec(),
	};
	let mut body = match how % 3 {
		0 => enc::recordish(t, 120),
		_ => enc::frame(t, 160).bytes,
	};
	if how & 0x80 == 0 {
		enc::mutate(&mut Tape::new(&edits), &mut body);
	} else {
		let n = usize::from(edits[0]) % (body.len() + 1);
		body.truncate(n);
	}
	body.truncate(ROOM);
	p.extend(body);
	located(&enc::wrap(t, &p))
}

fn c21_header(t: &mut Tape) -> Outcome {
	let ci = t.pick(&crate::tables::cis(|_, f| f != Form::None));
	let (_, form) = crate::tables::ci(ci).unwrap();
	let (mut h, _) = enc::header(t, form);
	if t.bool() {
		let n = t.below(h.len());
		h.truncate(n);
	} else {
		for _ in 0..t.range(1, 2) {
			let at = t.below(h.len());
			h[at] = t.u8();
		}
	}
	let mut p = vec![ci];
	p.extend(h);
	located(&enc::wrap(t, &p))
}

/// All of these words must be found, innermost first, in the report
fn names_all(r: &Report, words: &[&str]) -> Option<String> {
	let mut at = 0;
	for w in words {
		match r.labels[at..].iter().position(|l| l.to_lowercase().contains(&w.to_lowercase())) {
			Some(i) => at += i,
			None => {
				return Some(format!(
					"the report does not name {w:?} where it should ({words:?}): {:?}",
					r.text
				))
			}
		}
	}
	None
}

fn blamed(d: &[u8], words: &[&str]) -> Outcome {
	let out = Outcome::new(d);
	match rejected(d) {
		Err(why) => out.fail(why),
		// whether it is rejected is for other properties
		Ok(None) => out.nontrivial(false).tag("not rejected"),
		Ok(Some(r)) => out.verdict(check_report(d, &r).or_else(|| names_all(&r, words))),
	}
}

/// One fault in a frame or a header
fn c21_part(t: &mut Tape) -> Outcome {
	let how = t.u8() % 8;
	if how < 3 {
		// a header
		let ci = t.pick(&crate::tables::cis(|_, f| f != Form::None));
		let (_, form) = crate::tables::ci(ci).unwrap();
		let (mut h, _) = enc::header(t, form);
		const FIELDS: [(&str, usize); 7] = [
			("device identifier", 4),
			("manufacturer", 2),
			("version", 1),
			("device type", 1),
			("access number", 1),
			("status", 1),
			("configuration field", 2),
		];
		let fields = if form == Form::Long { &FIELDS[..] } else { &FIELDS[4..] };
		let name = if form == Form::Long { "long header" } else { "short header" };
		let mut which = t.below(fields.len());
		let start: usize = fields[..which].iter().map(|f| f.1).sum();
		if how == 0 {
			h.truncate(start + t.below(fields[which].1));
		} else {
			match fields[which].0 {
				"device identifier" => h[start + t.below(4)] = 0xA0 | t.u8() % 16,
				"manufacturer" => {
					// no letter has the number 0 or one above 26
					h[start] = h[start] & 0xE0 | t.pick(&[0, 27, 28, 29, 30, 31]);
				}
				_ => {
					which = fields.len() - 1;
					let at = h.len() - 1;
					h[at] = t.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15]) | t.u8() & 0xE0;
				}
			}
		}
		let mut p = vec![ci];
		p.extend(h);
		let d = enc::wrap(t, &p);
		return blamed(&d, &[fields[which].0, name, "long frame"]).tag(fields[which].0);
	}
	if how == 3 {
		// error codes that do not exist
		let code = t.pick(&[0x07, 0x0A, 0x0F, 0x10, 0x17, 0x1F, 0x23, 0x3F, 0x80, 0xEF]);
		let d = enc::wrap(t, &[0x70, code, t_byte(code)]);
		return blamed(&d, &["error code", "long frame"]).tag("error code");
	}
	if how == 4 {
		// a CI field that means nothing
		let ci = t.pick(&[0x20, 0x3A, 0x4F, 0x56, 0x58, 0x5E, 0x76, 0x77, 0x7E, 0x91, 0x9D, 0xC6, 0xFF]);
		let n = t.len(30);
		let mut p = vec![ci];
		p.extend(t.bytes(n));
		let d = enc::wrap(t, &p);
		return blamed(&d, &["CI field", "long frame"]).tag("CI field");
	}
	let reserved = |t: &mut Tape| {
		// the reserved bit, or a function that does not exist
		let c = t.u8();
		match c % 3 {
			0 => c | 0x80,
			1 => 0x40 | c & 0x30 | t.pick(&[5, 6, 7, 12, 13, 14, 15]),
			_ => c & 0x30 | t.pick(&[2, 3, 4, 5, 6, 7, 10, 12, 13]),
		}
	};
	if how == 5 {
		let mut d = {
			let (c, _) = enc::control(t);
			enc::short_frame(c, t.u8())
		};
		const PARTS: [&str; 4] = ["control byte", "address byte", "checksum", "frame tail"];
		let which = t.below(4);
		if which == 1 || t.bool() {
			d.truncate(1 + which);
		} else {
			match which {
				0 => {
					d[1] = reserved(t);
					d[3] = d[1].wrapping_add(d[2]);
				}
				_ => d[1 + which] ^= 1 + t.u8() % 255,
			}
		}
		return blamed(&d, &[PARTS[which], "short frame"]).tag(PARTS[which]);
	}
	let mut d = {
		let ci = enc::any_ci(t);
		enc::long_packet(t, ci).bytes
	};
	let n = d.len();
	const PARTS: [(&str, &str); 8] = [
		("length", "length"),
		("length confirmation", "length confirmation"),
		("frame marker", "frame marker"),
		("control byte", "control byte"),
		("address byte", ""),
		("packet data", ""),
		("checksum", "checksum"),
		("frame tail", "frame tail"),
	];
	let which = t.below(8);
	if PARTS[which].1.is_empty() || t.bool() {
		match which {
			5 => d.truncate(6 + t.below(n - 8)),
			6 => d.truncate(n - 2),
			7 => d.truncate(n - 1),
			k => d.truncate(1 + k),
		}
	} else {
		match which {
			0 => d[1] = t.u8() % 3,
			1 => d[2] ^= 1 + t.u8() % 255,
			2 => d[3] ^= 1 + t.u8() % 255,
			3 => {
				d[4] = reserved(t);
				d[n - 2] = model::sum(&d[4..n - 2]);
			}
			6 => d[n - 2] ^= 1 + t.u8() % 255,
			_ => d[n - 1] ^= 1 + t.u8() % 255,
		}
	}
	blamed(&d, &[PARTS[which].0, "long frame"]).tag(PARTS[which].0)
}

/// Any byte at all
fn t_byte(seed: u8) -> u8 {
	seed.wrapping_mul(31)
}

/// One fault in a record
fn c21_record_part(t: &mut Tape) -> Outcome {
	use crate::enc::EUnit;
	use crate::tables::Table;
	let in_error = t.u8() % 8 == 0;
	let mut p: Vec<u8>;
	if in_error {
		p = vec![0x70, 0xF0];
	} else {
		p = carrier(t).to_vec();
		for _ in 0..t.len(4) {
			p.extend(enc::record(t, 30).bytes);
		}
	}
	let how = t.u8() % 10;
	// a quantity that is a plain number, and whether it has a sign
	let (unit, signed) = if t.bool() {
		(EUnit::Code(Table::Primary, t.below(0x6C) as u8), true)
	} else {
		(EUnit::Code(Table::Fd, t.range(0x08, 0x0F) as u8), false)
	};
	let number = |n: usize| {
		format!("{} bit {} number", n * 8, if signed { "signed" } else { "unsigned" })
	};
	let vifes = if t.chance(1, 4) {
		let n = 1 + t.len(11);
		Some((0..n).map(|_| t.u8() & 0x7F).collect())
	} else {
		None
	};
	let vib = enc::vib_of(unit, vifes);
	let mut words: Vec<String> = Vec::new();
	let mut say = |w: &str| words.push(w.to_owned());
	let tag;
	match how {
		0 => {
			tag = "DIF";
			let mut dif = t.u8() & 0xF0 | t.pick(&[0x08, 0x0F]);
			if dif == 0x0F || dif == 0x1F || dif == 0x2F {
				dif |= 0x40;
			}
			p.push(dif);
			let n = t.len(8);
			p.extend(t.bytes(n));
			say("DIF byte");
		}
		1 => {
			tag = "DIFE";
			let dib = enc::dib(t, 1).bytes;
			if t.bool() {
				// the last one says that there is another
				let last = dib.len() - 1;
				p.extend(&dib);
				let at = p.len() - 1;
				p[at] |= 0x80;
				if last == 10 {
					p.extend([0x81, 0x01]);
					say("DIFE chain");
				} else {
					say("DIFE");
				}
			} else {
				p.push(dib[0] | 0x80);
				let n = t.range(11, 20);
				for _ in 0..n {
					p.push(t.u8() | 0x80);
				}
				p.extend([1, 1, 1]);
				say("DIFE chain");
			}
		}
		2 => {
			tag = "VIF";
			let code = t.pick(&[1, 2, 3, 4, 6, 7, 5, 0, 9, 12, 13]);
			p.extend(enc::dib(t, code).bytes);
			let k = t.below(vib.bytes.len());
			p.extend(&vib.bytes[..k]);
			say("VIF");
		}
		3 => {
			tag = "unit text";
			p.extend(enc::dib(t, 1).bytes);
			p.push(0x7C);
			let n = t.range(1, 20);
			p.push(n as u8);
			let k = t.below(n);
			p.extend(vec![0x41; k]);
			say("plain text VIF");
		}
		4 => {
			tag = "integer";
			let (code, n) = t.pick(&[(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (7, 8)]);
			p.extend(enc::dib(t, code).bytes);
			p.extend(&vib.bytes);
			let k = t.below(n);
			p.extend(t.bytes(k));
			say(&number(n));
		}
		5 => {
			tag = "BCD";
			let (code, n) = t.pick(&[(9, 1), (10, 2), (11, 3), (12, 4), (14, 6)]);
			p.extend(enc::dib(t, code).bytes);
			p.extend(&vib.bytes);
			let k = t.below(n);
			p.extend(t.bytes(k));
			say("BCD number");
		}
		6 | 7 => {
			tag = "variable length";
			p.extend(enc::dib(t, 13).bytes);
			p.extend(&vib.bytes);
			match t.u8() % 6 {
				0 => say("LVAR"),
				1 => {
					p.push(t.pick(&[0xCA, 0xCF, 0xDA, 0xDF, 0xF7, 0xFF, 0xFA]));
					let n = t.len(8);
					p.extend(t.bytes(n));
					say("LVAR");
				}
				2 => {
					let n = t.range(1, 0x40);
					p.push(n as u8);
					let k = t.below(n);
					p.extend(t.bytes(k));
					say("string");
				}
				3 => {
					let n = t.range(1, 9);
					p.push(t.pick(&[0xC0, 0xD0]) + n as u8);
					let k = t.below(n);
					p.extend(t.bytes(k));
					say(&format!("{n} byte BCD number"));
				}
				4 => {
					let n = t.range(2, 9);
					p.push(t.pick(&[0xC0, 0xD0]) + n as u8);
					let mut b: Vec<u8> = (0..n).map(|_| t.u8() % 10).collect();
					let at = t.below(n);
					b[at] |= t.range(10, 14) as u8 * 16;
					p.extend(b);
					say(&format!("{n} byte BCD number"));
				}
				_ => {
					let n = t.range(1, 8);
					p.push(0xE0 + n as u8);
					let k = t.below(n);
					p.extend(t.bytes(k));
					say(&number(n));
				}
			}
		}
		_ => {
			// a date or time
			let (code, head, mut b, name): (u8, &[u8], Vec<u8>, &str) = match t.below(5) {
				0 => (4, &[0x6D], enc::date_f(t).0, "type F"),
				1 => (2, &[0x6C], enc::date_g(t).0, "type G"),
				2 => (6, &[0x6D], enc::date_i(t).0, "type I"),
				3 => (3, &[0x6D], enc::time_j(t).0, "type J"),
				_ => (4, &[0xFD, 0x72], enc::dst_k(t).0, "type K"),
			};
			tag = name;
			p.extend(enc::dib(t, code).bytes);
			p.extend(head);
			if t.u8() % 4 == 0 {
				b.truncate(t.below(b.len()));
			} else {
				// the date comes before the fault in some: keep it acceptable
				let high = t.range(60, 62) as u8;
				let hour = t.range(24, 30) as u8;
				let set = |v: &mut u8, mask: u8, to: u8| *v = *v & !mask | to & mask;
				let field = match (name, t.below(4)) {
					("type F", 0) => (set(&mut b[0], 0x3F, high), "minute").1,
					("type F", 1) => (set(&mut b[1], 0x1F, hour), "hour").1,
					("type F", 2) => (set(&mut b[3], 0x0F, 13), "month").1,
					("type F", _) => {
						(set(&mut b[2], 0xE0, 0x80), set(&mut b[3], 0xF0, 0xC0), "year").2
					}
					("type G", 0 | 1) => (set(&mut b[1], 0x0F, 14), "month").1,
					("type G", _) => {
						(set(&mut b[0], 0xE0, 0xC0), set(&mut b[1], 0xF0, 0xF0), "year").2
					}
					("type I", 0) => (set(&mut b[0], 0x3F, high), "second").1,
					("type I", 1) => (set(&mut b[1], 0x3F, high), "minute").1,
					("type I", 2) => (set(&mut b[2], 0x1F, hour), "hour").1,
					("type I", _) => (set(&mut b[4], 0x0F, 13), "month").1,
					("type J", 0) => (set(&mut b[0], 0x3F, high), "second").1,
					("type J", 1) => (set(&mut b[1], 0x3F, high), "minute").1,
					("type J", _) => (set(&mut b[2], 0x1F, hour), "hour").1,
					(_, 0) => (set(&mut b[0], 0x1F, hour), "hour").1,
					(_, 1) => (set(&mut b[1], 0x1F, 0), "day").1,
					(_, 2) => (set(&mut b[2], 0x1F, 0), "day").1,
					(_, _) => {
						let to = t.pick(&[0x0D, 0xD0]);
						set(&mut b[3], if to == 0x0D { 0x0F } else { 0xF0 }, to);
						"month"
					}
				};
				say(field);
			}
			say(name);
			p.extend(b);
			if words.len() == 2 {
				let n = t.len(6);
				p.extend(t.bytes(n));
			}
		}
	}
	words.push("record".into());
	words.push("long frame".into());
	if p.len() > enc::MAX_PAYLOAD {
		return Outcome::new(&p).nontrivial(false).tag("does not fit");
	}
	let d = enc::wrap(t, &p);
	let w: Vec<&str> = words.iter().map(|w| &w[..]).collect();
	blamed(&d, &w).tag(tag)
}

fn c21_cause(t: &mut Tape) -> Outcome {
	let (payload, want) = if t.bool() {
		let n = t.range(1, 12);
		let mut text = t.bytes(n);
		if std::str::from_utf8(&text).is_ok() {
			let at = t.below(n);
			text[at] = 0xFF;
		}
		let want = std::str::from_utf8(&text).unwrap_err().to_string();
		let mut p = vec![0x78, 0x02, 0x7C, n as u8];
		p.extend(text);
		p.extend([1, 2]);
		(p, want)
	} else {
		let (mut h, _) = enc::long_fields(t);
		let digits = t.below(10) as u8;
		for b in &mut h[..4] {
			*b = (t.u8() % 10) << 4 | t.u8() % 10;
		}
		h[3] = 0xF0 | digits;
		if digits == 0 && h[..3] == [0; 3] {
			h[0] = 1;
		}
		let want = u32::try_from(-1i64).unwrap_err().to_string();
		let mut p = vec![0x72];
		p.extend(h);
		(p, want)
	};
	let d = enc::wrap(t, &payload);
	let out = Outcome::new(&d);
	match rejected(&d) {
		Err(why) => out.fail(why),
		Ok(None) => out.nontrivial(false),
		Ok(Some(r)) => {
			let why = if r.cause.as_deref() != Some(&want[..]) || !r.text.starts_with(&want) {
				Some(format!("the report does not begin with the cause {want:?}: {:?}", r.text))
			} else {
				check_report(&d, &r)
			};
			out.verdict(why)
		}
	}
}

fn c21_made(t: &mut Tape) -> Outcome {
	const WORDS: [&str; 6] = ["length", "a", "long frame header", "DIF byte", "größe", "VIFE"];
	let input = Bytes::new(b"");
	let at = input.checkpoint();
	let mut want: Vec<String> = Vec::new();
	let mut items: Vec<MBusContext> = Vec::new();
	let mut e = match t.u8() % 3 {
		0 => MBusError::new(),
		1 => <MBusError as ParserError<&Bytes>>::from_input(&input),
		_ => {
			let n = t.below(5);
			let text: Vec<&str> = (0..=n).map(|_| t.pick(&WORDS)).collect();
			let text = text.join(if t.bool() { " " } else { "\n" });
			want.extend(text.lines().map(str::to_owned));
			FromExternalError::from_external_error(&input, std::io::Error::other(text))
		}
	};
	let mut level = 0;
	let mut labelled = false;
	let n = t.below(13);
	for _ in 0..n {
		let word = t.pick(&WORDS);
		let (item, text, enclosing) = match t.u8() % 6 {
			0..=1 => (MBusContext::Label(word), format!("invalid {word}"), true),
			2 => (
				MBusContext::ComputedLabel(word.to_owned()),
				format!("invalid {word}"),
				true,
			),
			3 => (
				MBusContext::Assertion(word),
				format!("assertion failed: {word}"),
				true,
			),
			4 => (
				MBusContext::Expected(StrContextValue::Description(word)),
				format!("expected {word}"),
				false,
			),
			_ => (
				MBusContext::Expected(StrContextValue::StringLiteral(word)),
				format!("expected `{word}`"),
				false,
			),
		};
		if enclosing {
			level += usize::from(labelled);
			labelled = true;
		}
		want.push(format!("{}{text}", " ".repeat(level)));
		e = match (&item, t.bool()) {
			(MBusContext::Label(l), true) => e.add_context(&input, &at, StrContext::Label(l)),
			(MBusContext::Expected(x), true) => {
				e.add_context(&input, &at, StrContext::Expected(x.clone()))
			}
			_ => e.add_context(&input, &at, item.clone()),
		};
		items.push(item);
	}
	e = match t.u8() % 7 {
		// a parser of text says the same with winnow's own items
		6 => {
			use winnow::error::ContextError;
			let mut plain = ContextError::<StrContext>::new();
			(items, want) = (Vec::new(), Vec::new());
			for i in 0..t.below(7) {
				let word = t.pick(&WORDS);
				let (given, item) = if t.bool() {
					want.push(format!("invalid {word}"));
					(StrContext::Label(word), MBusContext::Label(word))
				} else {
					want.push(format!("expected {word}"));
					let x = StrContextValue::Description(word);
					(StrContext::Expected(x.clone()), MBusContext::Expected(x))
				};
				let before = items.iter().filter(|i| matches!(i, MBusContext::Label(_))).count();
				let level = match item {
					MBusContext::Label(_) => before,
					_ => before.saturating_sub(1),
				};
				want[i].insert_str(0, &" ".repeat(level));
				plain = plain.add_context(&input, &at, given);
				items.push(item);
			}
			ErrorConvert::<MBusError>::convert(plain)
		}
		// once around winnow's own error type
		0 if want.len() == items.len() => {
			let inner = ParserError::<&Bytes>::into_inner(e).expect("never incomplete");
			ErrorConvert::convert(inner)
		}
		1 => ErrorConvert::<MBusError>::convert(e),
		2 => match ErrorConvert::<ErrMode<MBusError>>::convert(e) {
			ErrMode::Backtrack(e) => e,
			other => return Outcome::new(b"").fail(format!("becomes {other:?}")),
		},
		_ => e,
	};
	let text = e.to_string();
	let out = Outcome::new(want.join("/").as_bytes());
	let got: Vec<&MBusContext> = e.context().collect();
	if got != items.iter().collect::<Vec<_>>() {
		return out.fail(format!("given {items:?}, its items are {got:?}"));
	}
	let same = text.lines().eq(want.iter().map(String::as_str));
	out.verdict((!same).then(|| format!("the report is {text:?}, must be {want:?}")))
}

// ---------------------------------------------------------------------------
// C22

pub const C22: &[Sub] = &[
	Sub {
		name: "ways of supplying",
		plan: Plan::Random {
			tape: 600,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "generated, recorded and mutated packets and payloads, decoded from a slice, a byte \
		       view, a located slice, and streaming buffers marked complete, and at an address of each \
		       remainder by 16; non-trivial if the envelope is valid",
		run: c22_ways,
	},
	Sub {
		name: "prefixes",
		plan: Plan::Random {
			tape: 500,
			quick: 20_000,
			thorough: 1_000_000,
		},
		rule: "every prefix, the empty one and the whole included, of a generated or recorded \
		       packet in a streaming buffer: incomplete until whole, then as in one shot. Every \
		       case counts",
		run: c22_prefixes,
	},
	Sub {
		name: "complete frames that are not acceptable",
		plan: Plan::Random {
			tape: 500,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "packets with a valid envelope and wrong contents in a streaming buffer: rejected as \
		       in one shot; non-trivial if rejected",
		run: c22_bad,
	},
	Sub {
		name: "histories",
		plan: Plan::Random {
			tape: 600,
			quick: 20_000,
			thorough: 1_000_000,
		},
		rule: "two to six inputs, half of them near twins of others, decoded in a generated order with \
		       repetitions, by generated ways of supplying, some on another thread: each result \
		       equals that of the first time",
		run: c22_histories,
	},
	Sub {
		name: "a history and a fresh process",
		plan: Plan::Random {
			tape: 600,
			quick: 4_000,
			thorough: 100_000,
		},
		rule: "the last of two to six inputs, mostly a near twin of one before it (same length and \
		       checksum, one byte different, same header or same body), decoded after the others: \
		       equals what a process gives that decodes nothing else",
		run: c22_fresh,
	},
];

/// Something that is easily taken for `d`
fn twin(t: &mut Tape, d: &[u8]) -> Vec<u8> {
	let mut e = d.to_vec();
	let how = t.u8() % 8;
	let n = e.len();
	if n < 12 || e[0] != 0x68 {
		if n > 0 {
			let at = t.below(n);
			e[at] ^= 1 << t.below(8);
			enc::repair(&mut e, false);
		}
		return e;
	}
	let at = |t: &mut Tape| 6 + t.below(n - 8);
	match how {
		0 => {
			// one byte more, another less by as much
			let (i, j, k) = (at(t), at(t), t.u8() | 1);
			e[i] = e[i].wrapping_add(k);
			e[j] = e[j].wrapping_sub(k);
		}
		1 => {
			let (i, j) = (at(t), at(t));
			e.swap(i, j);
		}
		2 => {
			let i = at(t);
			e[i] ^= 1 << t.below(8);
		}
		3 => {
			let i = t.range(4, 5);
			e[i] = if i == 4 { enc::control(t).0 } else { t.u8() };
		}
		4 | 5 => {
			// the front of one and the end of another
			let other = some_packet(t);
			let i = if t.bool() { 19 } else { at(t) };
			if other.len() > 12 {
				for (k, x) in e.iter_mut().enumerate().take(n - 2).skip(6) {
					if (k < i) == (how == 4) {
						if let Some(y) = other.get(k).filter(|_| k < other.len() - 2) {
							*x = *y;
						}
					}
				}
			}
		}
		6 => {
			e[6] = enc::any_ci(t);
		}
		_ => {
			// the parts of the body in another order
			let i = at(t);
			let from = 19.min(i);
			e[from..n - 2].rotate_left(i - from);
		}
	}
	enc::repair(&mut e, true);
	e
}

fn related(t: &mut Tape, n: usize) -> Vec<Vec<u8>> {
	let mut all: Vec<Vec<u8>> = Vec::new();
	for _ in 0..n {
		let d = match all.len() {
			0 => some_input(t),
			k if t.bool() => {
				let k = t.below(k);
				twin(t, &all[k])
			}
			_ => some_input(t),
		};
		all.push(d);
	}
	all
}

/// What a process of its own prints
pub fn fresh(d: &[u8]) -> String {
	clip(&format!("{:?}", decode(0, d)))
}

fn clip(s: &str) -> String {
	s.replace(['\n', '\r'], " ")
}

fn c22_fresh(t: &mut Tape) -> Outcome {
	let n = t.range(1, 5);
	let mut all = related(t, n);
	let last = if t.chance(7, 8) {
		let k = t.below(n);
		twin(t, &all[k])
	} else {
		some_input(t)
	};
	all.push(last.clone());
	let mut here = String::new();
	for d in &all {
		here = fresh(d);
	}
	let out = Outcome::new(&all.concat()).nontrivial(here.starts_with("(Ok") || model::envelope(&last));
	let exe = match std::env::current_exe() {
		Ok(e) => e,
		Err(_) => return out.nontrivial(false),
	};
	let there = std::process::Command::new(exe)
		.arg("fresh")
		.arg(crate::engine::hex(&last))
		.stderr(std::process::Stdio::null())
		.output();
	match there {
		Ok(o) if o.status.success() => {
			let there = String::from_utf8_lossy(&o.stdout);
			let there = there.trim_end();
			if there == here.trim_end() {
				return out;
			}
			Outcome::new(&last).fail(format!("after others: {here}, in a fresh process: {there}"))
		}
		// not to be had: no verdict
		_ => out.nontrivial(false).tag("no process"),
	}
}

#[derive(Debug, PartialEq, Clone)]
enum Res {
	Ok(String),
	Err(String),
	Incomplete,
	Panic(String),
}

fn outcome_of<S: Stream>(
	r: Result<Packet, ErrMode<MBusError>>,
	left: &S,
) -> (Res, usize) {
	let left = left.eof_offset();
	match r {
		Ok(p) => (Res::Ok(format!("{p:?}")), left),
		// where a rejected input is left standing is nobody's concern
		Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => (Res::Err(format!("{e}")), 0),
		Err(ErrMode::Incomplete(_)) => (Res::Incomplete, 0),
	}
}

/// The packet decoded from `d` supplied in one of several ways
fn decode(way: usize, d: &[u8]) -> (Res, usize) {
	let r = obs::catch(|| match way {
		0 => {
			let mut i = Bytes::new(d);
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		1 => {
			let mut i = d;
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		2 => {
			let mut i = LocatingSlice::new(d);
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		3 => {
			let mut i = LocatingSlice::new(Bytes::new(d));
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		4 => {
			use winnow::stream::StreamIsPartial;
			let mut i = Partial::new(Bytes::new(d));
			let _ = i.complete();
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		5 => {
			use winnow::stream::StreamIsPartial;
			let mut i = Partial::new(d);
			let _ = i.complete();
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		6 => {
			let mut i = Partial::new(Bytes::new(d));
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
		_ => {
			let mut i = Partial::new(d);
			let r = Packet::parse.parse_next(&mut i);
			outcome_of(r, &i)
		}
	});
	r.unwrap_or_else(|p| (Res::Panic(p.split(" at ").next().unwrap_or("").into()), 0))
}

/// Ways in which the end of the bytes is the end of the input
const WHOLE: usize = 6;

const WAYS: [&str; 8] = [
	"a byte view",
	"a slice",
	"a located slice",
	"a located byte view",
	"a complete streaming buffer of a byte view",
	"a complete streaming buffer",
	"a streaming buffer of a byte view",
	"a streaming buffer",
];

/// Where in memory an input lies, and what around it
pub struct Place {
	offset: usize,
	around: u8,
}

impl Place {
	pub fn any(t: &mut Tape) -> Place {
		Place {
			offset: t.below(16),
			around: t.pick(&[0, 0x16, 0xFF, 0x2F, 0x68]),
		}
	}

	pub fn at(n: usize) -> Place {
		Place { offset: n % 16, around: 0x2F }
	}

	pub fn with<T>(&self, d: &[u8], what: impl FnOnce(&[u8]) -> T) -> T {
		let mut b = vec![self.around; d.len() + 48];
		let at = b.as_ptr().align_offset(16) + self.offset;
		b[at..at + d.len()].copy_from_slice(d);
		what(&b[at..at + d.len()])
	}
}

impl std::fmt::Display for Place {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "at an address of 16n + {} between {:02X}s", self.offset, self.around)
	}
}

pub fn some_input(t: &mut Tape) -> Vec<u8> {
	let how = t.u8();
	let edits = t.bytes(20);
	let mut d = match how % 8 {
		0 => {
			let p = enc::recordish(t, 100);
			let mut q = carrier(t).to_vec();
			q.extend(p);
			enc::wrap(t, &q)
		}
		1 => {
			let n = t.len(40);
			t.bytes(n)
		}
		_ => some_packet(t),
	};
	if how & 0x30 != 0 {
		enc::mutate(&mut Tape::new(&edits), &mut d);
		if how & 0xC0 != 0 {
			enc::repair(&mut d, true);
		}
	}
	d
}

fn c22_ways(t: &mut Tape) -> Outcome {
	let d = some_input(t);
	let first = decode(0, &d);
	let mut why = None;
	for way in 1..WHOLE {
		let other = decode(way, &d);
		if other != first {
			why = Some(format!(
				"from {}: {first:?}, from {}: {other:?}",
				WAYS[0], WAYS[way]
			));
			break;
		}
	}
	let again = decode(0, &d);
	if again != first {
		why = Some(format!("first {first:?}, then {again:?}"));
	}
	let place = Place::any(t);
	let way = t.below(WHOLE);
	let there = place.with(&d, |d| decode(way, d));
	if there != first {
		why = Some(format!("first {first:?}, {place} from {}: {there:?}", WAYS[way]));
	}
	Outcome::new(&d)
		.tag(match first.0 {
			Res::Ok(_) => "accepted",
			_ => "rejected",
		})
		.nontrivial(model::envelope(&d))
		.verdict(why)
}

fn c22_prefixes(t: &mut Tape) -> Outcome {
	let d = some_packet(t);
	let whole = decode(0, &d);
	let out = Outcome::new(&d);
	if !matches!(whole.0, Res::Ok(_)) {
		// C25's concern
		return out.nontrivial(false);
	}
	for way in WHOLE..8 {
		for k in 0..d.len() {
			let r = decode(way, &d[..k]);
			if r.0 != Res::Incomplete {
				return out.fail(format!(
					"the first {k} of {} bytes from {}: {r:?}, must be incomplete",
					d.len(),
					WAYS[way]
				));
			}
		}
		let r = decode(way, &d);
		if r != whole {
			return out.fail(format!("from {}: {r:?}, in one shot {whole:?}", WAYS[way]));
		}
	}
	out
}

fn c22_bad(t: &mut Tape) -> Outcome {
	let edits = t.bytes(20);
	let how = t.u8();
	let mut d = some_packet(t);
	enc::mutate(&mut Tape::new(&edits), &mut d);
	if how % 8 != 0 {
		enc::repair(&mut d, true);
	} else if d.len() > 5 && d[0] == 0x68 {
		d[1] = (d.len() - 6) as u8;
		d[2] = d[1];
	}
	let out = Outcome::new(&d);
	if !model::envelope(&d) {
		return out.nontrivial(false);
	}
	let whole = decode(0, &d);
	let nontrivial = matches!(whole.0, Res::Err(_));
	for way in WHOLE..8 {
		let r = decode(way, &d);
		if r != whole {
			return out.fail(format!("from {}: {r:?}, in one shot {whole:?}", WAYS[way]));
		}
	}
	out.nontrivial(nontrivial)
}

fn c22_histories(t: &mut Tape) -> Outcome {
	let n = t.range(2, 6);
	let steps: Vec<(usize, usize, bool)> = (0..t.range(6, 24))
		.map(|_| (t.below(n), t.below(WHOLE), t.chance(1, 16)))
		.collect();
	let inputs = related(t, n);
	let place = Place::any(t);
	let first: Vec<_> = inputs.iter().map(|d| decode(0, d)).collect();
	let mut out = Outcome::new(&inputs.concat());
	for (which, way, elsewhere) in steps {
		let d = &inputs[which];
		let r = if elsewhere {
			std::thread::scope(|s| s.spawn(|| decode(way, d)).join().unwrap())
		} else {
			place.with(d, |d| decode(way, d))
		};
		if r != first[which] {
			out.input = d.clone();
			return out.fail(format!(
				"first {:?}, after other inputs, from {}: {r:?}",
				first[which], WAYS[way]
			));
		}
	}
	out
}

// ---------------------------------------------------------------------------
// C25

pub const C25: &[Sub] = &[
	Sub {
		name: "encode and decode",
		plan: Plan::Random {
			tape: 900,
			quick: 600_000,
			thorough: 40_000_000,
		},
		rule: "packets written by the reference encoder from generated contents: every field must \
		       come back. Every case counts; tagged by kind of packet",
		run: c25_round,
	},
	Sub {
		name: "every kind of message",
		plan: Plan::Enumerate {
			count: 256 * 800,
			tail: 900,
		},
		rule: "800 generated packets of every CI there is a message for",
		run: c25_kinds,
	},
	Sub {
		name: "mutations against the reference decoder",
		plan: Plan::Random {
			tape: 900,
			quick: 600_000,
			thorough: 40_000_000,
		},
		rule: "generated or recorded packets with one to three edits, mostly with length and \
		       checksum made right again; non-trivial if the envelope is still valid",
		run: c25_mutated,
	},
	Sub {
		name: "record-like bytes against the reference decoder",
		plan: Plan::Random {
			tape: 400,
			quick: 600_000,
			thorough: 40_000_000,
		},
		rule: "valid frames around record-like bytes not made as records; non-trivial if the \
		       reference decoder has a claim",
		run: c25_recordish,
	},
	Sub {
		name: "recordings",
		plan: Plan::Enumerate {
			count: 200,
			tail: 0,
		},
		rule: "every recorded meter frame in the corpus against the reference decoder; non-trivial \
		       if accepted",
		run: c25_recordings,
	},
	Sub {
		name: "bytes of recordings",
		plan: Plan::Stride {
			count: 98 * 261 * 256,
			tail: 0,
			quick: 500_000,
		},
		rule: "every recorded meter frame with each of its bytes set to every value and the \
		       checksum made right again, against the reference decoder",
		run: c25_recording_bytes,
	},
];

fn kind_tag(m: &MPacket) -> &'static str {
	match m {
		MPacket::Ack => "acknowledgement",
		MPacket::Short(..) => "short frame",
		MPacket::Long(_, _, m) => match m {
			MMsg::Response(_, f) if f.records.is_empty() => "response without records",
			MMsg::Response(_, f) if f.records.len() == 1 => "response with one record",
			MMsg::Response(..) => "response with several records",
			MMsg::Error(..) => "error message",
			MMsg::Select(..) | MMsg::SelectedResponse(..) => "application selection",
			_ => "other message",
		},
		MPacket::Other(_) => "other",
	}
}

fn must_be(d: &[u8], want: &MPacket) -> Option<String> {
	match obs::packet(d) {
		Obs::Panic(p) => Some(format!("panicked: {p}")),
		Obs::Rej(e) => Some(format!(
			"rejected ({}), must be {want:?}",
			e.trim().replace('\n', " / ")
		)),
		Obs::Ok(p) => diff_packet(want, &p),
	}
}

fn c25_round(t: &mut Tape) -> Outcome {
	let p = enc::packet(t);
	Outcome::new(&p.bytes)
		.tag(kind_tag(&p.packet))
		.verdict(must_be(&p.bytes, &p.packet))
}

fn c25_kinds(t: &mut Tape) -> Outcome {
	let i = t.index();
	let cis = enc::all_cis();
	let ci = cis[i as usize % cis.len()];
	let p = enc::long_packet(t, ci);
	Outcome::new(&p.bytes)
		.tag(kind_tag(&p.packet))
		.verdict(must_be(&p.bytes, &p.packet))
}

fn against_model(d: &[u8]) -> Outcome {
	let want = model::packet(d);
	let tag = match &want {
		Ok(v) if v.lenient => "accepted or rejected",
		Ok(_) => "accepted",
		Err(Stop::Reject(_)) => "rejected",
		Err(Stop::Open(_)) => "not claimed",
	};
	let why = obs::judge_packet(&want, &obs::packet(d));
	Outcome::new(d)
		.tag(tag)
		.nontrivial(!matches!(want, Err(Stop::Open(_))) && model::envelope(d))
		.verdict(why)
}

fn c25_mutated(t: &mut Tape) -> Outcome {
	let how = t.u8();
	let edits = t.bytes(24);
	let mut d = some_packet(t);
	enc::mutate(&mut Tape::new(&edits), &mut d);
	if how % 16 != 0 {
		enc::repair(&mut d, how % 16 != 1);
	}
	against_model(&d)
}

fn c25_recordish(t: &mut Tape) -> Outcome {
	let mut p = carrier(t).to_vec();
	p.extend(enc::recordish(t, ROOM));
	against_model(&enc::wrap(t, &p))
}

fn c25_recordings(t: &mut Tape) -> Outcome {
	let all = recordings();
	let i = t.index() as usize;
	if i >= all.len() {
		return Outcome::new(&[]).nontrivial(false);
	}
	let mut out = against_model(&all[i]);
	out.nontrivial = model::packet(&all[i]).is_ok();
	out
}

fn c25_recording_bytes(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (value, i) = (i as u8, i / 256);
	let (at, which) = (i % 261, i / 261);
	let all = recordings();
	if which >= all.len() || at >= all[which].len() {
		return Outcome::new(&[]).nontrivial(false);
	}
	let mut d = all[which].clone();
	d[at] = value;
	// a changed checksum stays changed
	if at != d.len() - 2 {
		enc::repair(&mut d, false);
	}
	against_model(&d)
}

// ---------------------------------------------------------------------------

pub const SELF: &[Sub] = &[Sub {
	name: "encoder against decoder",
	plan: Plan::Random {
		tape: 900,
		quick: 2_000_000,
		thorough: 40_000_000,
	},
	rule: "what the reference encoder writes, the reference decoder reads",
	run: self_round,
}];

fn self_round(t: &mut Tape) -> Outcome {
	let p = enc::packet(t);
	let why = match model::packet(&p.bytes) {
		Err(e) => Some(format!("{e:?}, must be {:?}", p.packet)),
		Ok(v) if v.lenient => Some("lenient".into()),
		Ok(v) => diff_packet(&p.packet, &v.packet),
	};
	Outcome::new(&p.bytes).verdict(why)
}
