//! What the library says of some bytes, in words. The check of C31 compares it
//! with what other builds of this crate say.

use std::fmt::Debug;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{dump_remaining_vifes, ValueInfoBlock};
use libmbus::parse::error::MBusError;
use libmbus::parse::link_layer::Packet;
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader};
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use libmbus::parse::types::BitsInput;
use winnow::prelude::*;
use winnow::Bytes;

/// How many kinds of question there are
pub const PARTS: u8 = 24;

fn report(e: &MBusError) -> String {
	format!("rejected, cause {}: {e}", e.cause().is_some())
}

fn part<'a, T: Debug>(d: &'a [u8], mut p: impl Parser<&'a Bytes, T, MBusError>) -> String {
	let mut rest = Bytes::new(d);
	match p.parse_next(&mut rest) {
		Ok(v) => format!("{v:?}, {} left", rest.len()),
		Err(e) => report(&e),
	}
}

fn bits<T: Debug>(
	d: &[u8],
	mut p: impl FnMut(&mut BitsInput<'_>) -> Result<T, MBusError>,
) -> String {
	let mut rest: BitsInput = (Bytes::new(d), 0);
	match p(&mut rest) {
		Ok(v) => format!("{v:?}, {} left and {} bits", rest.0.len(), rest.1),
		Err(e) => report(&e),
	}
}

/// What the library says of these bytes
pub fn answer(which: u8, size: u8, d: &[u8]) -> String {
	let n = usize::from(size);
	match which {
		0 => match Packet::parse.parse(Bytes::new(d)) {
			Ok(p) => format!("{p:?}"),
			Err(e) => {
				let at = e.offset();
				format!("at {at} {}", report(&e.into_inner()))
			}
		},
		1 => part(d, MBusMessage::parse),
		2 => part(d, Frame::parse),
		3 => part(d, Record::parse),
		4 => part(d, ShortHeader::parse),
		5 => part(d, LongHeader::parse),
		6 => part(d, TypeFDateTime::parse),
		7 => part(d, TypeGDate::parse),
		8 => part(d, TypeIDateTime::parse),
		9 => part(d, TypeJTime::parse),
		10 => part(d, TypeKDST::parse),
		// it asserts that it is not asked for more than nine
		11 => part(d, parse_bcd(n % 10)),
		12 => part(d, parse_invalid_bcd(n % 12)),
		13 => part(d, parse_binary_signed(n % 9)),
		14 => part(d, parse_binary_unsigned(n % 9)),
		15 => part(d, parse_binary(n >= 128, n % 9)),
		16 => part(d, parse_latin1(n)),
		17 => part(d, parse_length_prefix_ascii),
		18 => part(d, parse_real),
		19 => part(d, ApplicationMessage::parse),
		20 => part(d, ApplicationErrorMessage::parse),
		21 => bits(d, DataInfoBlock::parse),
		22 => bits(d, ValueInfoBlock::parse),
		_ => bits(d, dump_remaining_vifes),
	}
}
