//! Structured generators with a reference *encoder*: each picks what is to be
//! said, writes it down as bytes, and returns what must be read back. Nothing
//! here uses the reference decoder.

use crate::model::{raw_name, sum, FUNCTIONS};
use crate::tables::{self, Form, Kind, Sign, Table};
use crate::tape::Tape;
use crate::types::*;

/// A control byte that stands for something
pub fn control(t: &mut Tape) -> (u8, MControl) {
	if t.bool() {
		let (fcv, f, name) = t.pick(tables::PRIMARY);
		let fcb = t.bool();
		(
			0x40 | if fcb { 0x20 } else { 0 } | if fcv { 0x10 } else { 0 } | f,
			MControl::Primary {
				fcb,
				service: name.into(),
			},
		)
	} else {
		let (f, name) = if t.bool() {
			t.pick(tables::SECONDARY)
		} else {
			(8, "UserData")
		};
		let acd = t.bool();
		let pause = t.bool();
		(
			if acd { 0x20 } else { 0 } | if pause { 0x10 } else { 0 } | f,
			MControl::Secondary {
				acd,
				pause,
				service: name.into(),
			},
		)
	}
}

/// `payload` starts with the CI byte
pub fn long_frame(control: u8, address: u8, payload: &[u8]) -> Vec<u8> {
	let len = payload.len() + 2;
	if len > 255 {
		// steered choices can add up to too much
		crate::engine::discard();
	}
	let mut out = vec![0x68, len as u8, len as u8, 0x68, control, address];
	out.extend_from_slice(payload);
	let s = sum(&out[4..]);
	out.push(s);
	out.push(0x16);
	out
}

pub fn short_frame(control: u8, address: u8) -> Vec<u8> {
	vec![0x10, control, address, control.wrapping_add(address), 0x16]
}

/// The longest payload (CI byte included) of a long frame
pub const MAX_PAYLOAD: usize = 253;

/// Make length, length confirmation and checksum right again, where there is
/// room for them
pub fn repair(d: &mut [u8], length: bool) {
	let n = d.len();
	if n >= 9 && d[0] == 0x68 {
		if length && n - 6 <= 255 {
			d[1] = (n - 6) as u8;
			d[2] = d[1];
		}
		d[n - 2] = sum(&d[4..n - 2]);
	} else if n == 5 && d[0] == 0x10 {
		d[3] = d[1].wrapping_add(d[2]);
	}
}

// ---------------------------------------------------------------------------
// Headers

pub fn security(t: &mut Tape) -> ([u8; 2], MSecurity) {
	if t.chance(3, 4) {
		let lo = t.edge_u8();
		let mode = t.pick(&[
			6u8, 11, 12, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
		]);
		let hi = mode | (t.u8() & 0xE0);
		([lo, hi], MSecurity::Reserved(u16::from_le_bytes([lo, hi])))
	} else {
		([0, 0], MSecurity::None)
	}
}

fn short_fields(t: &mut Tape) -> (Vec<u8>, MShort) {
	let access = t.edge_u8();
	let status = t.edge_u8();
	let (cfg, security) = if t.chance(1, 3) {
		security(t)
	} else {
		([0, 0], MSecurity::None)
	};
	(
		vec![access, status, cfg[0], cfg[1]],
		MShort {
			access,
			status,
			security,
			extra: false,
		},
	)
}

pub fn long_fields(t: &mut Tape) -> (Vec<u8>, MLong) {
	let id = match t.u8() % 4 {
		0 => t.pick(&[0, 1, 9, 10, 99, 100, 12345678, 99999999, 90000000, 10000000]),
		// mostly the number that is on the tape
		_ => (t.u32() & 0x07FF_FFFF) % 100_000_000,
	};
	let (manufacturer, version, device) = if t.bool() {
		// something in or next to the product table
		let (m, lo, hi, d, _) = t.pick(tables::PRODUCTS);
		let version = match t.u8() % 4 {
			0 => lo.wrapping_sub(1),
			1 => hi.wrapping_add(1),
			2 => lo,
			_ => hi,
		};
		let device = match d {
			Some(d) if t.chance(3, 4) => d,
			_ => t.u8(),
		};
		(m.to_owned(), version, device)
	} else {
		let m: String = (0..3)
			.map(|_| (b'A' + t.below(26) as u8) as char)
			.collect();
		(m, t.edge_u8(), if t.bool() { t.edge_u8() } else { t.u8() % 0x40 })
	};
	let mut digits: Vec<u8> = format!("{id:08}").bytes().map(|c| c - b'0').collect();
	// the three manufacturers that put the version into the identification
	let id = if matches!(manufacturer.as_str(), "SBC" | "SEO" | "GTE")
		&& version / 16 < 10
		&& version % 16 < 10
		&& t.chance(3, 4)
	{
		digits[0] = version / 16;
		digits[1] = version % 16;
		digits.iter().fold(0u32, |a, d| a * 10 + u32::from(*d))
	} else {
		id
	};
	let mut id_bytes: Vec<u8> = digits.chunks(2).map(|p| p[0] * 16 + p[1]).collect();
	id_bytes.reverse();
	let code = tables::pack_manufacturer(&manufacturer);
	let product = tables::product(&manufacturer, id_bytes[3], version, device);
	let (tail_bytes, tail) = short_fields(t);
	let mut out = id_bytes;
	out.extend_from_slice(&code.to_le_bytes());
	out.push(version);
	out.push(device);
	out.extend(tail_bytes);
	(
		out,
		MLong {
			id,
			manufacturer,
			product: Some(product.map(str::to_owned)),
			version,
			device: tables::device_type(device).into(),
			tail,
		},
	)
}

pub fn header(t: &mut Tape, form: Form) -> (Vec<u8>, MHeader) {
	match form {
		Form::None => (Vec::new(), MHeader::None),
		Form::Short => {
			let (b, h) = short_fields(t);
			(b, MHeader::Short(h))
		}
		Form::Long => {
			let (b, h) = long_fields(t);
			(b, MHeader::Long(h))
		}
	}
}

// ---------------------------------------------------------------------------
// Records

/// Data fields there are
pub const CODES: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14];

pub struct EDib {
	pub bytes: Vec<u8>,
	pub code: u8,
	pub function: u8,
	pub storage: u128,
	pub tariff: u128,
	pub device: u128,
	pub obis: bool,
}

/// Write storage, tariff and subunit as DIF and DIFEs
pub fn dib_of(
	code: u8,
	function: u8,
	storage: u128,
	tariff: u128,
	device: u128,
	extra: usize,
	obis: bool,
) -> Option<EDib> {
	let bits = |v: u128| (128 - v.leading_zeros()) as usize;
	let need = (bits(storage).saturating_sub(1))
		.div_ceil(4)
		.max(bits(tariff).div_ceil(2))
		.max(bits(device));
	let mut n = need + extra;
	if obis {
		n += 1;
	}
	if n > 10 {
		return None;
	}
	let mut bytes = vec![code | function << 4 | ((storage & 1) as u8) << 6];
	let (mut s, mut ta, mut d) = (storage >> 1, tariff, device);
	for _ in 0..n {
		bytes.push((s & 15) as u8 | ((ta & 3) as u8) << 4 | ((d & 1) as u8) << 6);
		s >>= 4;
		ta >>= 2;
		d >>= 1;
	}
	for b in 0..n {
		bytes[b] |= 0x80;
	}
	// a chain that happens to end in a zero is an OBIS mark too
	let obis = n > 0 && bytes[n] == 0;
	Some(EDib {
		bytes,
		code,
		function,
		storage,
		tariff,
		device,
		obis,
	})
}

pub fn dib(t: &mut Tape, code: u8) -> EDib {
	let function = t.below(4) as u8;
	loop {
		let shape = t.u8() % 9;
		let (storage, tariff, device) = match shape {
			0..=2 => (u128::from(t.u8() & 1), 0, 0),
			3 => (u128::from(t.u8()), 0, 0),
			4 => (
				u128::from(t.u8() % 4),
				u128::from(t.u8() % 4),
				u128::from(t.u8() % 2),
			),
			5 => {
				// all of what k DIFEs hold
				let k = t.range(1, 10);
				(
					u128::from(t.u64()) % (1 << (4 * k + 1)),
					u128::from(t.u32()) % (1 << (2 * k)),
					u128::from(t.u16()) % (1 << k),
				)
			}
			6 => {
				// one bit somewhere
				let which = t.below(3);
				let bit = t.below([41, 20, 10][which]);
				let mut v = [0u128; 3];
				v[which] = 1 << bit;
				(v[0], v[1], v[2])
			}
			7 => (u128::from(t.u32()), u128::from(t.u16()), u128::from(t.u8())),
			_ => {
				let k = t.range(1, 10);
				(
					(1u128 << (4 * k + 1)) - 1,
					(1u128 << (2 * k)) - 1,
					(1u128 << k) - 1,
				)
			}
		};
		let obis = t.chance(1, 10);
		let extra = if t.chance(1, 8) { t.below(4) } else { 0 };
		if let Some(d) = dib_of(code, function, storage, tariff, device, extra, obis) {
			return d;
		}
		if let Some(d) = dib_of(code, function, storage, tariff, device, 0, false) {
			return d;
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum EUnit {
	Code(Table, u8),
	Invalid(u8),
	Text(String),
	Manufacturer,
	Any,
}

pub struct EVib {
	pub bytes: Vec<u8>,
	pub unit: EUnit,
	pub vifes: Option<Vec<u8>>,
}

pub fn unit(t: &mut Tape) -> EUnit {
	match t.u8() % 16 {
		0..=5 => EUnit::Code(Table::Primary, t.below(0x7B) as u8),
		6..=8 => {
			// second extension table starts at 7D
			let c = t.below(127) as u8;
			EUnit::Code(Table::Fd, if c == 0x7D { 0x7E } else { c })
		}
		9..=10 => EUnit::Code(Table::Fb, t.below(128) as u8),
		11 => EUnit::Code(Table::FdFd, if t.bool() { t.u8() % 5 } else { t.u8() & 0x7F }),
		12 => {
			if t.chance(1, 4) {
				let n = 2 + t.len(10);
				return EUnit::Text(t.data(n).iter().map(|b| (b & 0x7F) as char).collect());
			}
			if t.chance(1, 3) {
				// the names of units, and what the library may take for one
				const NAMES: [&str; 24] = [
					"%RH", "kWh", "m3", "m3/h", "Wh", "MWh", "GJ", "kW", "W", "V", "A", "Hz", "l", "bar",
					"kg", "C", "K", "%", "pH", "HCA", "ppm", "dBm", "kVAr", "cust.",
				];
				let words = crate::dict::words();
				let i = t.below(NAMES.len() + words.len());
				let ascii = |w: &Vec<u8>| w.iter().map(|b| (b & 0x7F) as char).collect();
				let name = NAMES.get(i).map(|s| (*s).to_owned());
				return EUnit::Text(name.unwrap_or_else(|| ascii(&words[i - NAMES.len()])));
			}
			let n = t.len(12);
			let text = (0..n)
				.map(|_| if t.chance(7, 8) { (0x20 + t.below(0x5F)) as u8 } else { t.u8() & 0x7F })
				.map(|b| b as char)
				.collect();
			EUnit::Text(text)
		}
		13 => EUnit::Manufacturer,
		14 => EUnit::Any,
		_ => {
			if t.bool() {
				// date and time, most often
				let (table, code) = t.pick(&[
					(Table::Primary, 0x6C),
					(Table::Primary, 0x6D),
					(Table::Fd, 0x72),
				]);
				EUnit::Code(table, code)
			} else {
				EUnit::Invalid(t.pick(&[0x7B, 0x7D]))
			}
		}
	}
}

pub fn vib_of(unit: EUnit, vifes: Option<Vec<u8>>) -> EVib {
	let more = if vifes.is_some() { 0x80 } else { 0 };
	let mut bytes = match &unit {
		EUnit::Code(Table::Primary, c) => vec![c | more],
		EUnit::Code(Table::Fd, c) => vec![0xFD, c | more],
		EUnit::Code(Table::FdFd, c) => vec![0xFD, 0xFD, c | more],
		EUnit::Code(Table::Fb, c) => vec![0xFB, c | more],
		EUnit::Manufacturer => vec![0x7F | more],
		EUnit::Any => vec![0x7E | more],
		EUnit::Invalid(c) => vec![*c],
		EUnit::Text(s) => {
			let mut b = vec![0x7C | more, s.len() as u8];
			b.extend(s.bytes().rev());
			b
		}
	};
	if let Some(v) = &vifes {
		let last = v.len() - 1;
		for (i, e) in v.iter().enumerate() {
			bytes.push(e | if i < last { 0x80 } else { 0 });
		}
	}
	EVib { bytes, unit, vifes }
}

pub fn vib(t: &mut Tape) -> EVib {
	let unit = unit(t);
	// the two invalid codes exist only without an extension
	let vifes = if !matches!(unit, EUnit::Invalid(_)) && t.chance(1, 4) {
		let n = 1 + t.len(11);
		Some((0..n).map(|_| t.u8() & 0x7F).collect())
	} else {
		None
	};
	vib_of(unit, vifes)
}

pub fn sign_of(u: &EUnit) -> Sign {
	match u {
		EUnit::Code(t, c) => tables::sign(*t, *c),
		_ => Sign::Signed,
	}
}

/// An integer of `n` bytes, its bytes, and what must be read
pub fn integer(t: &mut Tape, n: usize, sign: Sign) -> (Vec<u8>, MData) {
	if n == 0 {
		return (
			Vec::new(),
			match sign {
				Sign::Signed => MData::Signed(0),
				Sign::Unsigned => MData::Unsigned(0),
				Sign::Open => MData::Either(0, 0),
			},
		);
	}
	let span = 8 * n as u32;
	let max = if n == 8 { u64::MAX } else { (1 << span) - 1 };
	let half = 1u64 << (span - 1);
	let v: u64 = match t.u8() % 8 {
		0 => t.pick(&[0, 1, half - 1, half, half.wrapping_add(1), max, max - 1, 0x7F, 0x80]) & max,
		1 => u64::from(t.u8()) & max,
		2 => 1 << t.below(span as usize),
		3 => max ^ (1 << t.below(span as usize)),
		_ => t.u64() & max,
	};
	let s = if v >= half { (i128::from(v) - (i128::from(max) + 1)) as i64 } else { v as i64 };
	let bytes = (0..n).map(|i| (v >> (8 * i)) as u8).collect();
	(
		bytes,
		match sign {
			Sign::Signed => MData::Signed(s),
			Sign::Unsigned => MData::Unsigned(v),
			Sign::Open => MData::Either(s, v),
		},
	)
}

/// Decimal digits, most significant first, with a sign
pub fn bcd_digits(t: &mut Tape, n: usize, may_be_negative: bool) -> (Vec<u8>, i64) {
	if n == 0 {
		return (Vec::new(), 0);
	}
	let mut d: Vec<u8> = match t.u8() % 4 {
		0 => vec![0; 2 * n],
		1 => vec![9; 2 * n],
		// the bytes as they are on the tape, as far as they can be
		2 => {
			let b = t.data(n);
			b.iter().rev().flat_map(|b| [b / 16 % 10, b % 16 % 10]).collect()
		}
		_ => (0..2 * n).map(|_| t.u8() % 10).collect(),
	};
	if t.u8() % 8 > 4 {
		// leading zeros
		let k = t.below(2 * n);
		d[..k].fill(0);
	}
	let neg = may_be_negative && t.chance(1, 3);
	if neg {
		d[0] = 0;
	}
	let mut v = d.iter().fold(0i64, |a, x| a * 10 + i64::from(*x));
	if neg {
		v = -v;
		d[0] = 15;
	}
	let mut bytes: Vec<u8> = d.chunks(2).map(|p| p[0] * 16 + p[1]).collect();
	bytes.reverse();
	(bytes, v)
}

fn bad_bcd(t: &mut Tape, n: usize) -> (Vec<u8>, MData) {
	let mut d: Vec<u8> = (0..2 * n)
		.map(|_| if t.chance(1, 3) { t.u8() % 16 } else { t.u8() % 10 })
		.collect();
	// one that is certainly no digit, but not a lone F on top
	let at = t.below(2 * n);
	d[at] = if at == 0 { 10 + (t.u8() % 5) } else { 10 + (t.u8() % 6) };
	let text = d
		.iter()
		.enumerate()
		.map(|(i, x)| match (i, x) {
			(0, 15) => '-',
			(_, x) => b"0123456789ABCDEF"[*x as usize] as char,
		})
		.collect();
	let mut bytes: Vec<u8> = d.chunks(2).map(|p| p[0] * 16 + p[1]).collect();
	bytes.reverse();
	(bytes, MData::Error(text))
}

fn dmy(t: &mut Tape) -> (u8, u8, u8, [u8; 2]) {
	let day = t.pick(&[0u8, 1, 15, 16, 28, 31]).max(if t.bool() { t.u8() % 32 } else { 0 });
	let month = t.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15]);
	let year = if t.chance(1, 8) { 127 } else { t.below(100) as u8 };
	let mut raw = [day | (year & 7) << 5, month | (year >> 3) << 4];
	let (mut day, month, year) = (day, month, year);
	if raw == [0xFF, 0xFF] {
		day = 30;
		raw[0] = 30 | (year & 7) << 5;
	}
	(day, month, year, raw)
}

fn sixty(t: &mut Tape) -> u8 {
	if t.chance(1, 10) {
		63
	} else {
		t.below(60) as u8
	}
}

fn hours(t: &mut Tape) -> u8 {
	if t.chance(1, 10) {
		31
	} else {
		t.below(24) as u8
	}
}

pub fn date_f(t: &mut Tape) -> (Vec<u8>, MData) {
	let (minute, hour) = (sixty(t), hours(t));
	let century = t.below(4) as u8;
	let dst = t.bool();
	let (day, month, year, raw) = dmy(t);
	(
		vec![
			minute,
			hour | century << 5 | if dst { 0x80 } else { 0 },
			raw[0],
			raw[1],
		],
		MData::F {
			minute,
			hour,
			day,
			month,
			year,
			century: if century == 0 && year <= 80 { 1 } else { century },
			dst,
		},
	)
}

pub fn date_g(t: &mut Tape) -> (Vec<u8>, MData) {
	let (day, month, year, raw) = dmy(t);
	(raw.to_vec(), MData::G { day, month, year })
}

pub fn date_i(t: &mut Tape) -> (Vec<u8>, MData) {
	let (second, minute, hour) = (sixty(t), sixty(t), hours(t));
	let (day, month, year, raw) = dmy(t);
	let weekday = t.below(8) as u8;
	let week = t.below(54) as u8;
	let (dst, leap, plus) = (t.bool(), t.bool(), t.bool());
	let shift = t.below(4) as u8;
	let bit = |b: bool, v: u8| if b { v } else { 0 };
	(
		vec![
			second | bit(dst, 0x40) | bit(leap, 0x80),
			minute | bit(plus, 0x40),
			hour | weekday << 5,
			raw[0],
			raw[1],
			week | shift << 6,
		],
		MData::I {
			second,
			minute,
			hour,
			day,
			month,
			year,
			weekday,
			week,
			dst,
			leap,
			offset: if plus { shift as i8 } else { -(shift as i8) },
		},
	)
}

pub fn time_j(t: &mut Tape) -> (Vec<u8>, MData) {
	let (second, minute, hour) = (sixty(t), sixty(t), hours(t));
	(
		vec![second, minute, hour],
		MData::J {
			second,
			minute,
			hour,
		},
	)
}

pub fn dst_k(t: &mut Tape) -> (Vec<u8>, MData) {
	let hour = hours(t);
	let local = hours(t);
	let (start_day, end_day) = (t.range(1, 31) as u8, t.range(1, 31) as u8);
	let (start_month, end_month) = (t.range(1, 12) as u8, t.range(1, 12) as u8);
	let (enable, plus) = (t.bool(), t.bool());
	let dev = t.below(4) as u8;
	let bit = |b: bool, v: u8| if b { v } else { 0 };
	(
		vec![
			hour | (local & 7) << 5,
			start_day | (local >> 3) << 5 | bit(enable, 0x80),
			end_day | dev << 5 | bit(plus, 0x80),
			start_month | end_month << 4,
		],
		MData::K {
			hour,
			start_day,
			start_month,
			end_day,
			end_month,
			enable,
			deviation: if plus { dev as i8 } else { -(dev as i8) },
			local,
		},
	)
}

/// Variable-length data with its prefix, no longer than `room`
pub fn lvar(t: &mut Tape, sign: Sign, room: usize) -> (Vec<u8>, MData) {
	let room = room.saturating_sub(1);
	let (prefix, bytes, data) = match t.u8() % 8 {
		0..=2 => {
			let n = t.len(room.min(0xBF));
			let b = t.data(n);
			let mut text = String::new();
			for c in b.iter().rev() {
				text.push(crate::model::latin1(*c));
			}
			(n as u8, b, MData::Text(text))
		}
		3 => {
			let n = t.below(room.min(9) + 1);
			let (b, v) = bcd_digits(t, n, false);
			(0xC0 + n as u8, b, MData::Signed(v))
		}
		4 => {
			let n = t.below(room.min(9) + 1);
			let (b, v) = bcd_digits(t, n, false);
			(0xD0 + n as u8, b, MData::Signed(-v))
		}
		5..=6 => {
			let n = t.below(room.min(8) + 1);
			let (b, d) = integer(t, n, sign);
			(0xE0 + n as u8, b, d)
		}
		_ => {
			let (prefix, n) = t.pick(&[
				(0xE9u8, 9usize),
				(0xEA, 10),
				(0xEB, 11),
				(0xEC, 12),
				(0xED, 13),
				(0xEE, 14),
				(0xEF, 15),
				(0xF0, 16),
				(0xF1, 20),
				(0xF2, 24),
				(0xF3, 28),
				(0xF4, 32),
				(0xF5, 48),
				(0xF6, 64),
			]);
			if n > room {
				(0, Vec::new(), MData::Text(String::new()))
			} else {
				let b = t.data(n);
				(prefix, b.clone(), MData::Big(b))
			}
		}
	};
	let mut out = vec![prefix];
	out.extend(bytes);
	(out, data)
}

pub fn unit_name(u: &EUnit, code: u8) -> MUnit {
	MUnit::Named(match (u, code) {
		(EUnit::Text(s), _) => return MUnit::Text(s.clone()),
		(EUnit::Code(Table::Primary, 0x6C), 2) => "TypeGDate".into(),
		(EUnit::Code(Table::Primary, 0x6C), _) => "Invalid(108)".into(),
		(EUnit::Code(Table::Primary, 0x6D), 3) => "TypeJTime".into(),
		(EUnit::Code(Table::Primary, 0x6D), 4) => "TypeFDateTime".into(),
		(EUnit::Code(Table::Primary, 0x6D), 6) => "TypeIDateTime".into(),
		(EUnit::Code(Table::Primary, 0x6D), 13) => "TypeMDatetime".into(),
		(EUnit::Code(Table::Primary, 0x6D), _) => "Invalid(109)".into(),
		(EUnit::Code(Table::Fd, 0x72), c) if c != 4 => "Invalid(114)".into(),
		(EUnit::Code(t, c), _) => tables::quantity(*t, *c).into(),
		(EUnit::Invalid(c), _) => format!("Invalid({c})"),
		(EUnit::Manufacturer, _) => "ManufacturerSpecific".into(),
		(EUnit::Any, _) => "Any".into(),
	})
}

/// Data for a data field and unit
pub fn data(t: &mut Tape, code: u8, u: &EUnit, room: usize) -> (Vec<u8>, MData) {
	match (u, code) {
		(EUnit::Code(Table::Primary, 0x6C), 2) => return date_g(t),
		(EUnit::Code(Table::Primary, 0x6D), 3) => return time_j(t),
		(EUnit::Code(Table::Primary, 0x6D), 4) => return date_f(t),
		(EUnit::Code(Table::Primary, 0x6D), 6) => return date_i(t),
		(EUnit::Code(Table::Fd, 0x72), 4) => return dst_k(t),
		_ => {}
	}
	let sign = sign_of(u);
	match code {
		0 => (Vec::new(), MData::None),
		1..=4 | 6 => integer(t, code.into(), sign),
		7 => integer(t, 8, sign),
		5 => {
			let bits = match t.u8() % 4 {
				0 => t.pick(&[
					0u32,
					0x8000_0000,
					0x3F80_0000,
					0x7F80_0000,
					0xFF80_0000,
					0x7FC0_0000,
					0x7F80_0001,
					0xFFFF_FFFF,
					1,
					0x007F_FFFF,
				]),
				1 => (t.u16() as f32 / 100.0).to_bits(),
				_ => t.u32(),
			};
			(bits.to_le_bytes().to_vec(), MData::Real(bits))
		}
		9..=12 | 14 => {
			let n = usize::from(code) - 8;
			if t.chance(1, 6) {
				bad_bcd(t, n)
			} else {
				let (b, v) = bcd_digits(t, n, true);
				(b, MData::Signed(v))
			}
		}
		_ => lvar(t, sign, room),
	}
}

pub struct ERecord {
	pub bytes: Vec<u8>,
	pub record: MRecord,
}

pub fn record_of(d: EDib, v: EVib, body: (Vec<u8>, MData)) -> ERecord {
	let unit = unit_name(&v.unit, d.code);
	let mut bytes = d.bytes;
	bytes.extend(v.bytes);
	bytes.extend(body.0);
	ERecord {
		bytes,
		record: MRecord {
			raw: raw_name(d.code).into(),
			function: FUNCTIONS[usize::from(d.function)].into(),
			storage: d.storage,
			tariff: d.tariff,
			device: d.device,
			obis: d.obis,
			unit,
			vifes: v.vifes,
			data: body.1,
		},
	}
}

/// A record of at most `room` bytes; `room` is at least 3
pub fn record(t: &mut Tape, room: usize) -> ERecord {
	let v = vib(t);
	let code = match &v.unit {
		// give date units their sizes in most cases
		EUnit::Code(Table::Primary, 0x6C) if t.chance(3, 4) => 2,
		EUnit::Code(Table::Primary, 0x6D) if t.chance(3, 4) => t.pick(&[3, 4, 6]),
		EUnit::Code(Table::Fd, 0x72) if t.chance(3, 4) => 4,
		_ => t.pick(&CODES),
	};
	let d = dib(t, code);
	let left = room.saturating_sub(d.bytes.len() + v.bytes.len());
	let body = data(t, code, &v.unit, left);
	let r = record_of(d, v, body);
	if r.bytes.len() <= room {
		return r;
	}
	// too long: a plain one instead
	let d = dib_of(1, 0, 0, 0, 0, 0, false).unwrap();
	let v = vib_of(EUnit::Code(Table::Primary, 0x78), None);
	let body = integer(t, 1, Sign::Signed);
	record_of(d, v, body)
}

pub struct EFrame {
	pub bytes: Vec<u8>,
	pub frame: MFrame,
	/// Offsets of the byte after each record, and whether each byte is inside one
	pub spans: Vec<(usize, usize)>,
}

/// A response body of at most `room` bytes
pub fn frame(t: &mut Tape, room: usize) -> EFrame {
	let mut out = EFrame {
		bytes: Vec::new(),
		frame: MFrame {
			records: Vec::new(),
			more: false,
			manufacturer: Vec::new(),
		},
		spans: Vec::new(),
	};
	let n = match t.u8() % 8 {
		0 => 0,
		1..=3 => t.range(1, 3),
		4..=6 => t.range(3, 8),
		_ => 60,
	};
	let fillers = t.chance(1, 3);
	for _ in 0..n {
		if fillers {
			let k = t.below(4).min(room - out.bytes.len());
			out.bytes.extend(vec![0x2F; k]);
		}
		let left = room - out.bytes.len();
		if left < 3 {
			break;
		}
		let r = record(t, left);
		let start = out.bytes.len();
		out.bytes.extend(r.bytes);
		out.spans.push((start, out.bytes.len()));
		out.frame.records.push(r.record);
	}
	if fillers {
		let k = t.below(4).min(room - out.bytes.len());
		out.bytes.extend(vec![0x2F; k]);
	}
	if out.bytes.len() < room && t.chance(2, 5) {
		out.frame.more = t.bool();
		out.bytes.push(if out.frame.more { 0x1F } else { 0x0F });
		let k = t.len(room - out.bytes.len());
		let m = t.data(k);
		out.bytes.extend_from_slice(&m);
		out.frame.manufacturer = m;
	}
	out
}

// ---------------------------------------------------------------------------
// Messages and packets

pub struct EMsg {
	/// CI byte, header, body
	pub bytes: Vec<u8>,
	pub msg: MMsg,
	/// Where the body starts
	pub body: usize,
}

/// A message of some kind with this CI
pub fn message(t: &mut Tape, ci: u8) -> EMsg {
	let (kind, form) = tables::ci(ci).expect("implemented CI");
	let (hb, h) = header(t, form);
	let mut bytes = vec![ci];
	bytes.extend(hb);
	let room = MAX_PAYLOAD - bytes.len();
	let start = bytes.len();
	let raw = |t: &mut Tape| {
		let n = t.len(room);
		t.data(n)
	};
	let (body, msg) = match kind {
		Kind::ResetOrSelect => {
			if t.bool() {
				let (b, a) = app(t);
				(b, MMsg::Select(h, a))
			} else {
				(Vec::new(), MMsg::Reset(h))
			}
		}
		Kind::SelectedResponse => {
			let (b, a) = app(t);
			(b, MMsg::SelectedResponse(h, a))
		}
		Kind::SelectedRequest => (Vec::new(), MMsg::SelectedRequest(h)),
		Kind::SelectDevice => {
			let b = raw(t);
			(b.clone(), MMsg::SelectDevice(b))
		}
		Kind::Baud => (
			Vec::new(),
			MMsg::Baud(tables::BAUD[usize::from(ci - 0xB8)].into()),
		),
		Kind::Sync => (Vec::new(), MMsg::Sync),
		Kind::TimeAdjust => {
			let b = raw(t);
			(b.clone(), MMsg::TimeAdjust(h, b))
		}
		Kind::TimeSync => {
			let b = raw(t);
			(b.clone(), MMsg::TimeSync(h, b))
		}
		Kind::Alarm => {
			let b = raw(t);
			(b.clone(), MMsg::Alarm(h, b))
		}
		Kind::Error => {
			let (b, e) = error(t, room);
			(b, MMsg::Error(h, e))
		}
		Kind::Command => {
			let b = raw(t);
			(b.clone(), MMsg::Command(h, b))
		}
		Kind::Response => {
			let f = frame(t, room);
			(f.bytes, MMsg::Response(h, f.frame))
		}
		Kind::Afl => {
			let b = raw(t);
			(b.clone(), MMsg::Afl(b))
		}
		Kind::Dlms => {
			let b = raw(t);
			(b.clone(), MMsg::Dlms(ci, h, b))
		}
		Kind::Image => {
			let b = raw(t);
			(b.clone(), MMsg::Image(ci, h, b))
		}
		Kind::Manufacturer => {
			let b = raw(t);
			(b.clone(), MMsg::Manufacturer(ci, b))
		}
		Kind::SecurityTransfer => {
			let b = raw(t);
			(b.clone(), MMsg::SecurityTransfer(ci, h, b))
		}
		Kind::Specific => {
			let b = raw(t);
			(b.clone(), MMsg::Specific(ci, h, b))
		}
		Kind::Wireless => (Vec::new(), MMsg::Wireless(ci, h)),
	};
	bytes.extend(body);
	EMsg {
		bytes,
		msg,
		body: start,
	}
}

/// A one-byte application parameter
pub fn app(t: &mut Tape) -> (Vec<u8>, MApp) {
	let a = t.below(16);
	let block = t.below(16);
	(
		vec![(a * 16 + block) as u8],
		MApp {
			application: Some(tables::APPLICATIONS[a].into()),
			block: block as u64,
		},
	)
}

pub fn error(t: &mut Tape, room: usize) -> (Vec<u8>, MErr) {
	match t.u8() % 4 {
		0 => (Vec::new(), MErr::Named("Unspecified".into())),
		1 => {
			let codes: Vec<u8> = (0..=255)
				.filter(|c| tables::application_error(*c).is_some())
				.collect();
			let c = t.pick(&codes);
			(
				vec![c],
				MErr::Named(tables::application_error(c).unwrap().into()),
			)
		}
		2 => {
			let r = record(t, room - 1);
			let mut b = vec![0xF0];
			b.extend(r.bytes);
			(b, MErr::Dynamic(Box::new(r.record)))
		}
		_ => {
			let c = t.range(0xF1, 0xFF) as u8;
			let n = t.len(room - 1);
			let d = t.data(n);
			let mut b = vec![c];
			b.extend_from_slice(&d);
			(b, MErr::Manufacturer(c, d))
		}
	}
}

pub struct EPacket {
	pub bytes: Vec<u8>,
	pub packet: MPacket,
}

/// Every CI byte there is a message for
pub fn all_cis() -> &'static [u8] {
	static ALL: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
	ALL.get_or_init(|| tables::cis(|_, _| true))
}

pub fn any_ci(t: &mut Tape) -> u8 {
	match t.u8() % 4 {
		0..=1 => t.pick(&[0x72, 0x72, 0x78, 0x7A]),
		_ => t.pick(all_cis()),
	}
}

pub fn long_packet(t: &mut Tape, ci: u8) -> EPacket {
	let (c, mc) = control(t);
	let a = t.edge_u8();
	let m = message(t, ci);
	EPacket {
		bytes: long_frame(c, a, &m.bytes),
		packet: MPacket::Long(mc, a, m.msg),
	}
}

/// Any packet a conforming encoder can produce
pub fn packet(t: &mut Tape) -> EPacket {
	match t.u8() % 16 {
		0 => EPacket {
			bytes: vec![0xE5],
			packet: MPacket::Ack,
		},
		1..=2 => {
			let (c, mc) = control(t);
			let a = t.edge_u8();
			EPacket {
				bytes: short_frame(c, a),
				packet: MPacket::Short(mc, a),
			}
		}
		_ => {
			let ci = any_ci(t);
			long_packet(t, ci)
		}
	}
}

// ---------------------------------------------------------------------------
// Mutation

/// Change a few bytes of something well-formed
pub fn mutate(t: &mut Tape, d: &mut Vec<u8>) {
	let n = t.range(1, 3);
	for _ in 0..n {
		if d.is_empty() {
			d.push(t.u8());
			continue;
		}
		let at = t.below(d.len());
		match t.u8() % 8 {
			0 => d[at] ^= 1 << (t.u8() % 8),
			1..=2 => d[at] = t.edge_u8(),
			3 => d.insert(at, t.edge_u8()),
			4 => {
				d.remove(at);
			}
			5 => {
				let k = t.len(8);
				let b = t.bytes(k);
				d.extend(b);
			}
			6 => {
				let keep = t.below(d.len() + 1);
				d.truncate(keep);
			}
			_ => {
				// repeat or swap a stretch
				let len = t.range(1, 6).min(d.len() - at);
				let piece: Vec<u8> = d[at..at + len].to_vec();
				let to = t.below(d.len() + 1);
				d.splice(to..to, piece);
			}
		}
	}
}

/// Something that looks like records without being made as records
pub fn recordish(t: &mut Tape, room: usize) -> Vec<u8> {
	let mut out = Vec::new();
	let n = t.range(1, 5);
	for _ in 0..n {
		match t.u8() % 8 {
			0 => out.push(t.pick(&[0x2F, 0x0F, 0x1F])),
			1 => {
				let n = t.len(20);
				out.extend(t.bytes(n));
			}
			_ => {
				let mut dif = t.u8();
				if dif & 0x0F == 0x08 {
					dif ^= 0x05;
				}
				out.push(dif);
				let mut more = dif & 0x80 != 0;
				let mut k = 0;
				while more && k < 12 {
					let e = if t.chance(1, 3) { t.u8() | 0x80 } else { t.u8() & 0x7F };
					out.push(e);
					more = e & 0x80 != 0;
					k += 1;
				}
				let vif = if t.chance(1, 3) {
					t.pick(&[
						0xFD, 0xFB, 0xFC, 0x7C, 0x7F, 0x7E, 0xFF, 0x6C, 0x6D, 0xEC, 0xED, 0x7B, 0x7D,
					])
				} else {
					t.u8()
				};
				out.push(vif);
				let mut more = vif & 0x80 != 0;
				let mut k = 0;
				while more && k < 6 {
					let e = if t.chance(1, 3) { t.u8() | 0x80 } else { t.u8() & 0x7F };
					out.push(e);
					more = e & 0x80 != 0;
					k += 1;
				}
				let n = crate::model::width(dif & 0x0F).unwrap_or_else(|| t.below(10));
				for _ in 0..n {
					out.push(t.edge_u8());
				}
			}
		}
	}
	out.truncate(room);
	out
}

/// A long frame around a payload that may be anything
pub fn wrap(t: &mut Tape, payload: &[u8]) -> Vec<u8> {
	let (c, _) = control(t);
	let a = t.u8();
	long_frame(c, a, &payload[..payload.len().min(MAX_PAYLOAD)])
}
