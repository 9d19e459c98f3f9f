//! C29 each layer is made of the ones below it, at any length

use std::fmt::Debug;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::{DataInfoBlock, RawDataType};
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{ValueInfoBlock, ValueType};
use libmbus::parse::error::MBusError;
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader, TPLHeader};
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{parse_bcd, parse_invalid_bcd, parse_real};
use libmbus::parse::types::string::parse_latin1;
use libmbus::parse::types::DataType;
use winnow::prelude::*;
use winnow::Bytes;

use super::*;
use crate::engine::{Outcome, Plan, Sub};
use crate::tables::{self, Form, Kind};

pub const C29: &[Sub] = &[
	Sub {
		name: "packets and their messages",
		plan: Plan::Random {
			tape: 900,
			quick: 150_000,
			thorough: 10_000_000,
		},
		rule: "packets, generated, recorded or damaged, and the bytes between their address and \
		       checksum given to the message decoder. Non-trivial if the envelope is valid",
		run: c29_packet,
	},
	Sub {
		name: "messages and their parts",
		plan: Plan::Random {
			tape: 900,
			quick: 200_000,
			thorough: 15_000_000,
		},
		rule: "messages of every kind, some damaged, against what the decoders of their header and of \
		       their body make of those bytes. Non-trivial if the CI is one there is a message for",
		run: c29_message,
	},
	Sub {
		name: "frames and their records",
		plan: Plan::Random {
			tape: 900,
			quick: 150_000,
			thorough: 10_000_000,
		},
		rule: "response bodies, some damaged, against their records decoded one by one. Non-trivial \
		       if there is a record",
		run: c29_frame,
	},
	Sub {
		name: "records and their parts",
		plan: Plan::Random {
			tape: 300,
			quick: 400_000,
			thorough: 40_000_000,
		},
		rule: "records, some damaged, against what the decoders of data information, value \
		       information, numbers, texts and dates make of their bytes. Every case counts",
		run: c29_record,
	},
	Sub {
		name: "long bodies",
		plan: Plan::Random {
			tape: 300,
			quick: 10_000,
			thorough: 200_000,
		},
		rule: "bodies of up to 70000 records in a generated order, of 250 to 260 and 65530 to 65540 in \
		       particular, with fillers and manufacturer specific data of up to 70000 bytes, as a \
		       frame and as part of a message; cut or spoilt in the end in some. Non-trivial with \
		       more than 120 records, which a packet cannot hold",
		run: c29_long_body,
	},
	Sub {
		name: "long payloads",
		plan: Plan::Random {
			tape: 60,
			quick: 20_000,
			thorough: 200_000,
		},
		rule: "messages of every kind that passes its payload on, and manufacturer specific errors, with \
		       up to 140000 bytes, lengths around 250 to 260 and 65530 to 65540 in particular. \
		       Non-trivial with more than a packet can hold",
		run: c29_long_payload,
	},
	Sub {
		name: "long records",
		plan: Plan::Random {
			tape: 300,
			quick: 20_000,
			thorough: 2_000_000,
		},
		rule: "records with up to 70000 VIFEs or a plain text unit of up to 255 characters, followed by \
		       another. Non-trivial if longer than a packet",
		run: c29_long_record,
	},
];

type Got = Result<(String, usize), String>;

/// What a decoder makes of the front of some bytes: its value and how many of
/// the bytes it left, or its report
fn part<'a, T: Debug>(d: &'a [u8], mut p: impl Parser<&'a Bytes, T, MBusError>) -> Got {
	let mut rest = Bytes::new(d);
	match p.parse_next(&mut rest) {
		Ok(v) => Ok((format!("{v:?}"), rest.len())),
		Err(e) => Err(e.to_string()),
	}
}

/// The report of the whole begins with that of the part
fn begins(whole: &str, part: &str) -> bool {
	whole.starts_with(part)
}

fn line(report: &str) -> String {
	report.trim().replace('\n', " / ")
}

/// C01 sees to panics
fn unless_panic(input: &[u8], f: impl FnOnce() -> Outcome) -> Outcome {
	obs::catch(f).unwrap_or_else(|_| Outcome::new(input).nontrivial(false).tag("panics"))
}

fn damage(t: &mut Tape, d: &mut Vec<u8>) {
	if t.chance(3, 8) {
		let edits = t.bytes(20);
		enc::mutate(&mut Tape::new(&edits), d);
	}
}

// ---------------------------------------------------------------------------

fn c29_packet(t: &mut Tape) -> Outcome {
	let how = t.u8();
	let edits = t.bytes(20);
	let mut d = match how % 8 {
		0 => {
			let mut q = carrier(t).to_vec();
			q.extend(enc::recordish(t, 100));
			enc::wrap(t, &q)
		}
		1 => recording(t),
		_ => enc::packet(t).bytes,
	};
	if how & 0x18 != 0 {
		enc::mutate(&mut Tape::new(&edits), &mut d);
		enc::repair(&mut d, true);
	}
	let out = Outcome::new(&d);
	let n = d.len();
	if !model::envelope(&d)
		|| d[0] != 0x68
		|| model::control(d[4]).is_err()
		|| model::sum(&d[4..n - 2]) != d[n - 2]
	{
		return out.nontrivial(false);
	}
	unless_panic(&d, || {
		let mut input = Bytes::new(&d[..]);
		let packet = Packet::parse.parse_next(&mut input).map_err(|e| match e {
			winnow::error::ErrMode::Backtrack(e) | winnow::error::ErrMode::Cut(e) => e.to_string(),
			winnow::error::ErrMode::Incomplete(_) => "incomplete".into(),
		});
		let message = part(&d[6..n - 2], MBusMessage::parse);
		let out = Outcome::new(&d);
		match (packet, message) {
			(Ok(Packet::Long { message: m, address, .. }), Ok((v, _))) => {
				let m = format!("{m:?}");
				let why = if m != v {
					Some(format!("the packet has {m}, its message on its own is {v}"))
				} else if address != d[5] {
					Some(format!("address {address}"))
				} else {
					None
				};
				out.tag("accepted").verdict(why)
			}
			(Ok(p), Ok((v, _))) => out.fail(format!("a long frame is {p:?}, not {v}")),
			(Ok(p), Err(e)) => out.fail(format!(
				"the packet is {p:?}, its message on its own is rejected ({})",
				line(&e)
			)),
			(Err(e), Ok((v, _))) => match model::message(&d[6..n - 2]) {
				Ok((_, false)) => out.fail(format!(
					"the packet is rejected ({}), its message on its own is {v}",
					line(&e)
				)),
				_ => out.tag("not claimed"),
			},
			(Err(w), Err(p)) => {
				let why = (!begins(&w, &p)).then(|| {
					format!(
						"the report of the packet ({}) does not begin with that of its message ({})",
						line(&w),
						line(&p)
					)
				});
				out.tag("rejected").verdict(why)
			}
		}
	})
}

// ---------------------------------------------------------------------------

/// A message taken apart: its header and its body, as they print
fn apart(m: &MBusMessage) -> (String, String) {
	use MBusMessage as B;
	let none = || TPLHeader::None;
	let d = |h: &TPLHeader, b: &dyn Debug| (format!("{h:?}"), format!("{b:?}"));
	match m {
		B::ApplicationReset(h) => d(h, &None::<ApplicationMessage>),
		B::ApplicationSelect(h, a) | B::SelectedApplicationResponse(h, a) => d(h, &Some(a)),
		B::SelectedApplicationRequest(h) => d(h, &()),
		B::SelectionOfDevice(b)
		| B::AuthenticationAndFrgamentation(b)
		| B::ManufacturerSpecific(_, b) => d(&none(), b),
		B::SetBaudRate(_) | B::SynchroniseAction => d(&none(), &()),
		B::TimeAdjustmentToDevice(h, b)
		| B::TimeSyncToDevice(h, b)
		| B::AlarmFromDevice(h, b)
		| B::CommandToDevice(h, b)
		| B::Dlms(_, h, b)
		| B::ImageTransfer(_, h, b)
		| B::SecurityTransfer(_, h, b)
		| B::SpecificUsage(_, h, b) => d(h, b),
		B::ApplicationErrorFromDevice(h, e) => d(h, e),
		B::ResponseFromDevice(h, f) => d(h, f),
		B::Wireless(_, h) => d(h, &()),
		#[allow(unreachable_patterns)]
		other => (String::new(), format!("{other:?}")),
	}
}

/// What the decoders of its parts make of the header and the body
fn by_parts(d: &[u8]) -> Option<Result<(String, String), String>> {
	let (ci, mut d) = d.split_first()?;
	let (kind, form) = tables::ci(*ci)?;
	let header = match form {
		Form::None => Ok((format!("{:?}", TPLHeader::None), d.len())),
		Form::Short => part(d, ShortHeader::parse),
		Form::Long => part(d, LongHeader::parse),
	};
	let header = match header {
		Ok((h, left)) => {
			d = &d[d.len() - left..];
			h
		}
		Err(e) => return Some(Err(e)),
	};
	let body = match kind {
		Kind::Response => part(d, Frame::parse),
		Kind::Error => part(d, ApplicationErrorMessage::parse),
		Kind::ResetOrSelect => part(d, ApplicationMessage::parse),
		Kind::SelectedResponse => {
			if d.is_empty() {
				// there has to be one: for the message to say
				return Some(Err(String::new()));
			}
			part(d, ApplicationMessage::parse)
		}
		Kind::SelectedRequest | Kind::Baud | Kind::Sync | Kind::Wireless => Ok(("()".into(), 0)),
		_ => Ok((format!("{:?}", d.to_vec()), 0)),
	};
	Some(match body {
		Ok((b, _)) => Ok((header, b)),
		Err(e) => Err(e),
	})
}

fn judge_message(d: &[u8]) -> (Option<String>, &'static str) {
	let Some(parts) = by_parts(d) else {
		return (None, "no message");
	};
	let mut rest = Bytes::new(d);
	let whole = MBusMessage::parse.parse_next(&mut rest);
	match (whole, parts) {
		(Ok(m), Ok(p)) => {
			let m = apart(&m);
			let why = if m.0 != p.0 {
				Some(format!("header {}, on its own {}", m.0, p.0))
			} else if m.1 != p.1 {
				Some(format!("body {}, on its own {}", m.1, p.1))
			} else {
				None
			};
			(why, "accepted")
		}
		(Ok(m), Err(e)) => (
			Some(format!("is {m:?}, but a part is rejected ({})", line(&e))),
			"accepted",
		),
		(Err(e), Ok(p)) => match model::message(d) {
			Ok((_, false)) => (
				Some(format!("is rejected ({}), but its parts are {p:?}", line(&e.to_string()))),
				"rejected",
			),
			_ => (None, "not claimed"),
		},
		(Err(w), Err(p)) => {
			let w = w.to_string();
			let why = (!begins(&w, &p)).then(|| {
				format!(
					"its report ({}) does not begin with that of the part ({})",
					line(&w),
					line(&p)
				)
			});
			(why, "rejected")
		}
	}
}

fn c29_message(t: &mut Tape) -> Outcome {
	let ci = if t.bool() { t.pick(enc::all_cis()) } else { enc::any_ci(t) };
	let mut d = enc::message(t, ci).bytes;
	damage(t, &mut d);
	if t.chance(1, 8) {
		// another kind of message of the same bytes
		if let Some(c) = d.first_mut() {
			*c = t.pick(enc::all_cis());
		}
	}
	unless_panic(&d, || {
		let (why, tag) = judge_message(&d);
		Outcome::new(&d)
			.tag(tag)
			.nontrivial(tag != "no message")
			.verdict(why)
	})
}

// ---------------------------------------------------------------------------

struct Walk {
	records: Vec<String>,
	more: bool,
	manufacturer: Vec<u8>,
	rejected: Option<String>,
}

/// A body as the sequence of its records, each decoded by the record decoder
fn walk(mut d: &[u8]) -> Walk {
	let mut w = Walk {
		records: Vec::new(),
		more: false,
		manufacturer: Vec::new(),
		rejected: None,
	};
	while let Some(b) = d.first() {
		match b {
			0x2F => d = &d[1..],
			0x0F | 0x1F => {
				w.more = *b == 0x1F;
				w.manufacturer = d[1..].to_vec();
				break;
			}
			_ => match part(d, Record::parse) {
				Ok((r, left)) => {
					w.records.push(r);
					d = &d[d.len() - left..];
				}
				Err(e) => {
					w.rejected = Some(e);
					break;
				}
			},
		}
	}
	w
}

fn judge_frame(d: &[u8], w: &Walk) -> Option<String> {
	let mut rest = Bytes::new(d);
	match (Frame::parse.parse_next(&mut rest), &w.rejected) {
		(Ok(f), None) => {
			let mut i = 0;
			for (r, x) in f.records.iter().zip(&w.records) {
				let r = format!("{r:?}");
				if &r != x {
					return Some(format!("record {i} is {r}, on its own {x}"));
				}
				i += 1;
			}
			if f.records.len() != w.records.len() {
				Some(format!("{} records of {}", f.records.len(), w.records.len()))
			} else if f.more_data_follows != w.more {
				Some(format!("more data follows: {}", f.more_data_follows))
			} else if f.manufacturer_specific != w.manufacturer {
				Some(format!(
					"manufacturer specific data: {} bytes of {}, or others",
					f.manufacturer_specific.len(),
					w.manufacturer.len()
				))
			} else {
				None
			}
		}
		(Ok(f), Some(e)) => Some(format!(
			"a frame of {} records, but record {} is rejected ({})",
			f.records.len(),
			w.records.len(),
			line(e)
		)),
		(Err(e), None) => Some(format!(
			"rejected ({}), but it is {} records",
			line(&e.to_string()),
			w.records.len()
		)),
		(Err(whole), Some(p)) => {
			let whole = whole.to_string();
			(!begins(&whole, p)).then(|| {
				format!(
					"its report ({}) does not begin with that of record {} ({})",
					line(&whole),
					w.records.len(),
					line(p)
				)
			})
		}
	}
}

fn c29_frame(t: &mut Tape) -> Outcome {
	let d = if t.chance(1, 8) {
		enc::recordish(t, ROOM)
	} else {
		let mut d = enc::frame(t, ROOM).bytes;
		damage(t, &mut d);
		d
	};
	unless_panic(&d, || {
		let w = walk(&d);
		let tag = match w.rejected {
			None => "accepted",
			Some(_) => "rejected",
		};
		Outcome::new(&d)
			.tag(tag)
			.nontrivial(!w.records.is_empty())
			.verdict(judge_frame(&d, &w))
	})
}

// ---------------------------------------------------------------------------

/// The data of a record, by the decoders of values
fn value(raw: RawDataType, unit: &ValueType, d: &[u8]) -> Option<Got> {
	let unsigned = unit.is_unsigned();
	match unit {
		ValueType::TypeFDateTime => {
			return Some(part(d, TypeFDateTime::parse.map(DataType::DateTimeF)))
		}
		ValueType::TypeGDate => return Some(part(d, TypeGDate::parse.map(DataType::Date))),
		ValueType::TypeIDateTime => {
			return Some(part(d, TypeIDateTime::parse.map(DataType::DateTimeI)))
		}
		ValueType::TypeJTime => return Some(part(d, TypeJTime::parse.map(DataType::Time))),
		ValueType::DSTTypeK => return Some(part(d, TypeKDST::parse.map(DataType::DST))),
		_ => {}
	}
	let decimal = |d, n: usize| part(d, parse_bcd(n).map(DataType::Signed));
	match raw {
		RawDataType::None => Some(Ok((format!("{:?}", DataType::None), d.len()))),
		RawDataType::Real => Some(part(d, parse_real.map(DataType::Real))),
		RawDataType::Binary(n) => Some(part(d, parse_binary(unsigned, n))),
		RawDataType::BCD(n) => Some(match decimal(d, n) {
			Ok(v) => Ok(v),
			Err(_) => part(d, parse_invalid_bcd(n).map(DataType::ErrorValue)),
		}),
		RawDataType::LVAR => {
			let (prefix, d) = d.split_first()?;
			let n = usize::from(*prefix);
			match *prefix {
				0x00..=0xBF => Some(part(d, parse_latin1(n).map(DataType::String))),
				0xC0..=0xC9 => match parse_bcd(n - 0xC0).parse_peek(Bytes::new(d)) {
					// a sign is not for the digits to give
					Ok((_, v)) if v < 0 => None,
					_ => Some(decimal(d, n - 0xC0)),
				},
				0xD0..=0xD9 => match parse_bcd(n - 0xD0).parse_peek(Bytes::new(d)) {
					Ok((_, v)) if v < 0 => None,
					_ => Some(part(d, parse_bcd(n - 0xD0).map(|v| DataType::Signed(-v)))),
				},
				0xE0..=0xE8 => Some(part(d, parse_binary(unsigned, n - 0xE0))),
				_ => {
					let n = model::lvar_size(*prefix)?;
					let v = d.get(..n)?.to_vec();
					let v = format!("{:?}", DataType::VariableLengthNumber(v));
					Some(Ok((v, d.len() - n)))
				}
			}
		}
	}
}

fn judge_record(d: &[u8]) -> (Option<String>, &'static str) {
	let whole = {
		let mut rest = Bytes::new(d);
		Record::parse
			.parse_next(&mut rest)
			.map(|r| (r, rest.len()))
			.map_err(|e: MBusError| e.to_string())
	};
	let info = {
		let mut rest = Bytes::new(d);
		winnow::binary::bits::bits::<_, _, MBusError, _, _>((
			DataInfoBlock::parse,
			ValueInfoBlock::parse,
		))
		.parse_next(&mut rest)
		.map(|i| (i, rest.len()))
		.map_err(|e: MBusError| e.to_string())
	};
	match (whole, info) {
		(Ok((r, left)), Ok(((dib, vib), after))) => {
			let (a, b) = (format!("{:?}", r.dib), format!("{dib:?}"));
			if a != b {
				return (Some(format!("data information {a}, on its own {b}")), "accepted");
			}
			if r.vib.extra_vifes != vib.extra_vifes {
				return (
					Some(format!(
						"VIFEs {:?}, on their own {:?}",
						r.vib.extra_vifes, vib.extra_vifes
					)),
					"accepted",
				);
			}
			let (a, b) = (
				format!("{:?}", r.vib.value_type),
				format!("{:?}", vib.value_type),
			);
			let by_size = matches!(
				vib.value_type,
				ValueType::TypeGDate | ValueType::VariableDateTime | ValueType::DSTTypeK
			);
			if a != b && !by_size {
				return (Some(format!("value information {a}, on its own {b}")), "accepted");
			}
			let Some(data) = value(r.dib.raw_type, &r.vib.value_type, &d[d.len() - after..]) else {
				return (None, "data not claimed");
			};
			let a = format!("{:?}", r.data);
			let why = match data {
				Ok((b, _)) if a != b => Some(format!("data {a}, on its own {b}")),
				Ok((_, b)) if left != b => {
					Some(format!("leaves {left} bytes, its data on its own {b}"))
				}
				Ok(_) => None,
				Err(e) => Some(format!("data {a}, on its own rejected ({})", line(&e))),
			};
			(why, "accepted")
		}
		(Ok((r, _)), Err(e)) => (
			Some(format!(
				"is {r:?}, its data and value information on their own are rejected ({})",
				line(&e)
			)),
			"accepted",
		),
		(Err(w), Err(p)) => (
			(!begins(&w, &p)).then(|| {
				format!(
					"its report ({}) does not begin with that of its data and value information ({})",
					line(&w),
					line(&p)
				)
			}),
			"rejected for its information",
		),
		(Err(e), Ok(((dib, vib), after))) => {
			let decided_by_size = matches!(
				vib.value_type,
				ValueType::TypeGDate | ValueType::VariableDateTime | ValueType::DSTTypeK
			);
			if decided_by_size {
				return (None, "rejected date");
			}
			match value(dib.raw_type, &vib.value_type, &d[d.len() - after..]) {
				Some(Ok((v, _))) => (
					Some(format!("is rejected ({}), its data on its own is {v}", line(&e))),
					"rejected for its data",
				),
				_ => (None, "rejected for its data"),
			}
		}
	}
}

fn c29_record(t: &mut Tape) -> Outcome {
	let d = if t.chance(1, 8) {
		enc::recordish(t, 60)
	} else {
		let n = t.below(4);
		let after = t.data(n);
		let mut d = enc::record(t, 200).bytes;
		d.extend(after);
		damage(t, &mut d);
		d
	};
	unless_panic(&d, || {
		let (why, tag) = judge_record(&d);
		Outcome::new(&d).tag(tag).verdict(why)
	})
}

// ---------------------------------------------------------------------------
// Lengths that do not fit in a packet

/// A cheap source of many choices, from a seed that is on the tape
struct Mix(u64);

impl Mix {
	fn new(t: &mut Tape) -> Self {
		Self(t.u64() | 1)
	}
	fn next(&mut self) -> u64 {
		self.0 ^= self.0 << 13;
		self.0 ^= self.0 >> 7;
		self.0 ^= self.0 << 17;
		self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 16
	}
	fn below(&mut self, n: usize) -> usize {
		(self.next() % n as u64) as usize
	}
	fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.next() as u8).collect()
	}
}

/// Lengths at which a counter may be too small, and others
fn any_length(t: &mut Tape, max: usize) -> usize {
	let n = match t.u8() % 16 {
		0..=2 => t.below(200),
		3..=6 => t.range(245, 270),
		7 => t.range(505, 520),
		8..=10 => t.range(200, 3_000),
		11 => t.range(4_090, 4_105),
		12 => t.range(3_000, 33_000),
		13..=14 => t.range(65_525, 65_545),
		_ => t.range(33_000, 140_000),
	};
	if n > max { n % (max + 1) } else { n }
}

fn c29_long_body(t: &mut Tape) -> Outcome {
	// few of the very long ones
	let n = if t.chance(1, 12) { any_length(t, 70_000) } else { any_length(t, 1_200) };
	let fillers = t.below(3);
	let ending = t.u8();
	let tail = any_length(t, 70_000);
	let way = t.below(4);
	let mut mix = Mix::new(t);
	// what it is made of: small ones, so that there can be many
	let k = t.range(1, 6);
	let pool: Vec<enc::ERecord> = (0..k)
		.map(|i| enc::record(t, if i == 0 { 4 } else { 40 }))
		.collect();
	let mut d = Vec::new();
	let mut order = Vec::new();
	for _ in 0..n {
		if fillers > 0 {
			let most = if fillers == 2 && mix.below(200) == 0 { 600 } else { 2 };
			let f = mix.below(most + 1);
			d.extend(std::iter::repeat_n(0x2F, f));
		}
		// mostly the same one again
		let i = if mix.below(3) > 0 { 0 } else { mix.below(pool.len()) };
		d.extend_from_slice(&pool[i].bytes);
		order.push(i);
	}
	let mut more = false;
	let mut manufacturer = Vec::new();
	let mut spoilt = false;
	match ending % 8 {
		0..=2 => {
			more = ending & 8 != 0;
			manufacturer = mix.bytes(tail);
			d.push(if more { 0x1F } else { 0x0F });
			d.extend_from_slice(&manufacturer);
		}
		3 => {
			// a record that is cut short, or whose data field is reserved
			spoilt = true;
			d.extend_from_slice(if ending & 8 != 0 { &[0x04, 0x13, 1] } else { &[0x08, 0x13] });
		}
		_ => {}
	}
	let head = if way == 3 { &[][..] } else { CARRIERS[way] };
	let mut whole = head.to_vec();
	whole.extend_from_slice(&d);
	let out = Outcome::new(if whole.len() > 4_000 { &whole[..4_000] } else { &whole });
	let got = obs::catch(|| {
		let mut rest = Bytes::new(&whole[..]);
		if way == 3 {
			return Frame::parse.parse_next(&mut rest).map_err(|e: MBusError| e.to_string());
		}
		match MBusMessage::parse.parse_next(&mut rest) {
			Ok(MBusMessage::ResponseFromDevice(_, f)) => Ok(f),
			Ok(_) => Err("another kind of message".into()),
			Err(e) => Err(e.to_string()),
		}
	});
	let why = match got {
		Err(p) => Some(format!("{n} records: panicked: {p}")),
		Ok(Err(e)) => (!spoilt).then(|| format!("{n} records: rejected ({})", line(&e))),
		Ok(Ok(_)) if spoilt => Some(format!("{n} records and one that is not: accepted")),
		Ok(Ok(f)) => {
			// each compared in full the first time and with that one afterwards
			let mut seen: Vec<Option<String>> = vec![None; pool.len()];
			let differs = f.records.iter().zip(&order).enumerate().find_map(|(at, (r, i))| {
				let text = format!("{r:?}");
				match &seen[*i] {
					Some(s) if s == &text => None,
					Some(s) => Some(format!("record {at} of {n} is {text}, earlier {s}")),
					None => {
						seen[*i] = Some(text);
						diff_record(&pool[*i].record, &obs::conv_record(r))
							.map(|x| format!("record {at} of {n}: {x}"))
					}
				}
			});
			if differs.is_some() {
				differs
			} else if f.records.len() != n {
				Some(format!("{} records of {n}", f.records.len()))
			} else if f.more_data_follows != more {
				Some(format!("{n} records: more data follows: {}", f.more_data_follows))
			} else if f.manufacturer_specific != manufacturer {
				Some(format!(
					"{n} records: {} bytes of manufacturer specific data of {}, or others",
					f.manufacturer_specific.len(),
					manufacturer.len()
				))
			} else {
				None
			}
		}
	};
	out.tag(match n {
		0..=255 => "up to 255 records",
		256..=65535 => "up to 65535 records",
		_ => "more records",
	})
	.nontrivial(n > 120)
	.verdict(why)
}

fn c29_long_payload(t: &mut Tape) -> Outcome {
	let passing: &[u8] = {
		static ALL: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
		ALL.get_or_init(|| {
			tables::cis(|k, _| {
				!matches!(
					k,
					Kind::ResetOrSelect
						| Kind::SelectedRequest | Kind::SelectedResponse
						| Kind::Baud | Kind::Sync | Kind::Response
						| Kind::Wireless
				)
			})
		})
	};
	let ci = t.pick(passing);
	let n = any_length(t, 140_000);
	let code = t.range(0xF1, 0xFF) as u8;
	let mut mix = Mix::new(t);
	let (kind, form) = tables::ci(ci).unwrap();
	let mut d = vec![ci];
	let (h, _) = enc::header(t, form);
	d.extend_from_slice(&h);
	if kind == Kind::Error {
		d.push(code);
	}
	let mut payload = match t.u8() % 4 {
		0 => vec![t.u8(); n],
		_ => mix.bytes(n),
	};
	// often with padding
	let run = t.len(64).min(n);
	payload[n - run..].fill(t.pick(&[0x2F, 0x00, 0xFF, run as u8]));
	d.extend_from_slice(&payload);
	let out = Outcome::new(if d.len() > 4_000 { &d[..4_000] } else { &d });
	let expected = model::message(&d);
	let got = match obs::catch(|| {
		let mut rest = Bytes::new(&d[..]);
		MBusMessage::parse
			.parse_next(&mut rest)
			.map(|m| obs::conv_msg(&m))
			.map_err(|e: MBusError| e.to_string())
	}) {
		Err(p) => Obs::Panic(p),
		Ok(Err(e)) => Obs::Rej(e),
		Ok(Ok(m)) => Obs::Ok(m),
	};
	let why = obs::judge(
		&expected,
		&got,
		|e, a| diff_msg(&e.0, a).map(|mut w| {
			w.truncate(w.char_indices().nth(400).map_or(w.len(), |(i, _)| i));
			w
		}),
		false,
	);
	out.nontrivial(n > enc::MAX_PAYLOAD)
		.verdict(why.map(|w| format!("CI {ci:02X} and {n} bytes: {w}")))
}

fn c29_long_record(t: &mut Tape) -> Outcome {
	let n = if t.chance(1, 6) { any_length(t, 70_000) } else { any_length(t, 600) };
	let code = t.pick(&enc::CODES);
	let text = t.chance(1, 3);
	let dib = enc::dib(t, code);
	let mut mix = Mix::new(t);
	let unit = if text {
		let k = t.range(0, 255);
		enc::EUnit::Text((0..k).map(|_| (mix.next() & 0x7F) as u8 as char).collect())
	} else {
		enc::unit(t)
	};
	// the invalid codes exist only without an extension
	let vifes = (n > 0 && !matches!(unit, enc::EUnit::Invalid(_))).then(|| {
		let mut b = mix.bytes(n);
		b.iter_mut().for_each(|x| *x &= 0x7F);
		b
	});
	let vib = enc::vib_of(unit, vifes);
	let body = enc::data(t, code, &vib.unit, 255);
	let r = enc::record_of(dib, vib, body);
	let mut d = r.bytes.clone();
	d.extend_from_slice(&SENTINEL);
	let out = Outcome::new(if d.len() > 4_000 { &d[..4_000] } else { &d });
	let nontrivial = r.bytes.len() > enc::MAX_PAYLOAD;
	let got = obs::catch(|| {
		let mut rest = Bytes::new(&d[..]);
		Frame::parse
			.parse_next(&mut rest)
			.map(|f| obs::conv_frame(&f))
			.map_err(|e: MBusError| e.to_string())
	});
	let why = match got {
		Err(p) => Some(format!("panicked: {p}")),
		Ok(Err(e)) => Some(format!("rejected ({})", line(&e))),
		Ok(Ok(f)) => match &f.records[..] {
			[first, second] => diff_record(&r.record, first).or_else(|| {
				let want = model::record(&mut model::Cur::new(&SENTINEL)).ok()?;
				diff_record(&want, second).map(|w| format!("the record after it: {w}"))
			}),
			other => Some(format!("{} records instead of 2", other.len())),
		},
	};
	let why = why.map(|mut w| {
		w.truncate(w.char_indices().nth(400).map_or(w.len(), |(i, _)| i));
		format!("a record of {} bytes: {w}", r.bytes.len())
	});
	out.nontrivial(nontrivial).verdict(why)
}
