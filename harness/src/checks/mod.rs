//! The checks: for each property its generators and oracles.

pub mod builds;
pub mod dates;
pub mod files;
pub mod layers;
pub mod link;
pub mod parts;
pub mod patterns;
pub mod readings;
pub mod records;
pub mod transport;
pub mod values;
pub mod whole;

use std::sync::OnceLock;

use crate::engine::{Outcome, Sub};
use crate::enc;
use crate::model::{self, Stop};
use crate::obs::{self, Obs};
use crate::tape::Tape;
use crate::types::*;

pub fn all() -> Vec<(&'static str, &'static [Sub])> {
	vec![
		("C01", whole::C01),
		("C02", link::C02),
		("C03", link::C03),
		("C04", link::C04),
		("C05", transport::C05),
		("C06", transport::C06),
		("C07", transport::C07),
		("C08", transport::C08),
		("C09", records::C09),
		("C10", records::C10),
		("C11", records::C11),
		("C12", values::C12),
		("C13", values::C13),
		("C14", values::C14),
		("C15", values::C15),
		("C16", dates::C16),
		("C17", dates::C17),
		("C18", records::C18),
		("C19", transport::C19),
		("C20", transport::C20),
		("C21", whole::C21),
		("C22", whole::C22),
		("C23", files::C23),
		("C24", files::C24),
		("C25", whole::C25),
		("C26", patterns::C26),
		("C27", parts::C27),
		("C28", parts::C28),
		("C29", layers::C29),
		("C30", readings::C30),
		("C31", builds::C31),
		// not a property: the two halves of the reference against each other
		("SELF", whole::SELF),
	]
}

// ---------------------------------------------------------------------------

/// What goes before a response body: CI 78 has no header, 7A a short one and
/// 72 a long one
pub const CARRIERS: [&[u8]; 3] = [
	&[0x78],
	&[0x7A, 0x11, 0x00, 0x00, 0x00],
	&[
		0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00,
	],
];

/// Room for a response body in a packet with any of them
pub const ROOM: usize = enc::MAX_PAYLOAD - 13;

pub fn carrier(t: &mut Tape) -> &'static [u8] {
	CARRIERS[t.below(3)]
}

/// A response with this body
pub fn response(carrier: &[u8], body: &[u8]) -> Vec<u8> {
	let mut payload = carrier.to_vec();
	payload.extend_from_slice(body);
	enc::long_frame(0x08, 0x01, &payload)
}

/// Decode a body as part of a packet
pub fn decode_body(carrier: &[u8], body: &[u8]) -> Obs<MFrame> {
	match obs::packet(&response(carrier, body)) {
		Obs::Ok(MPacket::Long(_, _, MMsg::Response(_, f))) => Obs::Ok(f),
		Obs::Ok(other) => Obs::Ok(MFrame {
			records: Vec::new(),
			more: false,
			manufacturer: format!("{other:?}").into_bytes(),
		}),
		Obs::Rej(e) => Obs::Rej(e),
		Obs::Panic(p) => Obs::Panic(p),
	}
}

/// A record that is put after the one being looked at, to see where that ends:
/// instantaneous, Address, 1234h
pub const SENTINEL: [u8; 4] = [0x02, 0x7A, 0x34, 0x12];

pub type Part = fn(&MRecord, &MRecord) -> Option<String>;

/// Compare one part of the first record, and where it ends
pub fn first_record(e: &MFrame, a: &MFrame, part: Part) -> Option<String> {
	if let (Some(x), Some(y)) = (e.records.first(), a.records.first()) {
		if let Some(d) = part(x, y) {
			return Some(format!("first record: {d}"));
		}
	}
	if e.records.len() != a.records.len() {
		return Some(format!(
			"{} records expected, got {}: {:?}",
			e.records.len(),
			a.records.len(),
			a.records
		));
	}
	if let (Some(x), Some(y)) = (e.records.get(1), a.records.get(1)) {
		if let Some(d) = diff_record(x, y) {
			return Some(format!("record after it: {d}"));
		}
	}
	if e.manufacturer != a.manufacturer || e.more != a.more {
		return Some(format!("rest of the frame: expected {e:?}, got {a:?}"));
	}
	None
}

/// Judge a body by the reference decoder, looking only at `part` of its first record
pub fn judge_body(carrier: &[u8], body: &[u8], part: Part) -> (Option<String>, &'static str) {
	let expected = model::frame(body);
	let got = decode_body(carrier, body);
	let tag = match &expected {
		Ok(_) => "valid",
		Err(Stop::Reject(_)) => "invalid",
		Err(Stop::Open(_)) => "not claimed",
	};
	(
		obs::judge(&expected, &got, |e, a| first_record(e, a, part), false),
		tag,
	)
}

/// An outcome for a body, with the whole packet as its input
pub fn body_outcome(carrier: &[u8], body: &[u8], part: Part) -> Outcome {
	let (why, tag) = judge_body(carrier, body, part);
	Outcome::new(&response(carrier, body)).tag(tag).verdict(why)
}

pub fn data_part(e: &MRecord, a: &MRecord) -> Option<String> {
	diff_data(&e.data, &a.data)
}

/// Judge a body by what it was made from
pub fn judge_made(carrier: &[u8], body: &[u8], made: &MFrame, part: Part) -> Option<String> {
	let got = decode_body(carrier, body);
	let expected: Result<MFrame, Stop> = Ok(made.clone());
	obs::judge(&expected, &got, |e, a| first_record(e, a, part), false)
}

// ---------------------------------------------------------------------------

/// The recorded frames in /verif/harness/corpus
pub fn recordings() -> &'static [Vec<u8>] {
	static ALL: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	ALL.get_or_init(|| {
		let text = include_str!("../../corpus/frames.txt");
		text.lines()
			.filter(|l| !l.trim().is_empty())
			.map(|l| crate::engine::unhex(l).expect("corpus"))
			.collect()
	})
}

pub fn recording(t: &mut Tape) -> Vec<u8> {
	t.pick(&recordings().iter().collect::<Vec<_>>()).clone()
}
