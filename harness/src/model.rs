//! Reference decoder: a byte cursor and plain arithmetic.

use crate::tables::{self, Form, Kind, Sign, Table};
use crate::types::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
	/// The property says this is rejected
	Reject(&'static str),
	/// No property says what becomes of this
	Open(&'static str),
}

pub type R<T> = Result<T, Stop>;

fn no<T>(why: &'static str) -> R<T> {
	Err(Stop::Reject(why))
}

pub struct Cur<'a> {
	pub d: &'a [u8],
	pub p: usize,
}

impl<'a> Cur<'a> {
	pub fn new(d: &'a [u8]) -> Self {
		Self { d, p: 0 }
	}
	fn u8(&mut self) -> R<u8> {
		match self.d.get(self.p) {
			Some(b) => {
				self.p += 1;
				Ok(*b)
			}
			None => no("out of data"),
		}
	}
	fn take(&mut self, n: usize) -> R<&'a [u8]> {
		if self.d.len() - self.p < n {
			return no("out of data");
		}
		self.p += n;
		Ok(&self.d[self.p - n..self.p])
	}
	fn rest(&mut self) -> &'a [u8] {
		let r = &self.d[self.p..];
		self.p = self.d.len();
		r
	}
	fn left(&self) -> usize {
		self.d.len() - self.p
	}
}

/// What decoding a whole packet must give
#[derive(Debug, Clone, PartialEq)]
pub struct Verdict {
	pub packet: MPacket,
	/// Rejecting it would be no violation either (surplus bytes in a message
	/// that has none)
	pub lenient: bool,
}

pub fn control(c: u8) -> R<MControl> {
	if c & 0x80 != 0 {
		return no("control: reserved bit");
	}
	let (prm, b5, b4, f) = (c & 0x40 != 0, c & 0x20 != 0, c & 0x10 != 0, c & 0x0F);
	if prm {
		match tables::PRIMARY.iter().find(|(v, n, _)| *v == b4 && *n == f) {
			Some((_, _, s)) => Ok(MControl::Primary {
				fcb: b5,
				service: (*s).into(),
			}),
			None => no("control: reserved primary function"),
		}
	} else {
		match tables::SECONDARY.iter().find(|(n, _)| *n == f) {
			Some((_, s)) => Ok(MControl::Secondary {
				acd: b5,
				pause: b4,
				service: (*s).into(),
			}),
			None => no("control: reserved secondary function"),
		}
	}
}

pub fn sum(d: &[u8]) -> u8 {
	(d.iter().map(|b| u64::from(*b)).sum::<u64>() % 256) as u8
}

/// The frame rules, without looking at the control byte or the contents
pub fn envelope(d: &[u8]) -> bool {
	match d.first() {
		Some(0xE5) => d.len() == 1,
		Some(0x10) => d.len() == 5 && d[4] == 0x16,
		Some(0x68) => {
			d.len() >= 9
				&& d[1] == d[2]
				&& d[1] >= 3
				&& d[3] == 0x68
				&& d.len() == usize::from(d[1]) + 6
				&& d[d.len() - 1] == 0x16
		}
		_ => false,
	}
}

pub fn packet(d: &[u8]) -> R<Verdict> {
	if !envelope(d) {
		return no("envelope");
	}
	match d[0] {
		0xE5 => Ok(Verdict {
			packet: MPacket::Ack,
			lenient: false,
		}),
		0x10 => {
			if sum(&d[1..3]) != d[3] {
				return no("checksum");
			}
			Ok(Verdict {
				packet: MPacket::Short(control(d[1])?, d[2]),
				lenient: false,
			})
		}
		_ => {
			let n = d.len();
			if sum(&d[4..n - 2]) != d[n - 2] {
				return no("checksum");
			}
			let c = control(d[4])?;
			let (m, lenient) = message(&d[6..n - 2])?;
			Ok(Verdict {
				packet: MPacket::Long(c, d[5], m),
				lenient,
			})
		}
	}
}

fn short_header(c: &mut Cur) -> R<MShort> {
	let access = c.u8()?;
	let status = c.u8()?;
	let lo = c.u8()?;
	let hi = c.u8()?;
	let security = match hi % 32 {
		0 if lo == 0 && hi == 0 => MSecurity::None,
		0 => return no("security: flags without a mode"),
		6 | 11 | 12 | 14 => MSecurity::Reserved(u16::from(hi) * 256 + u16::from(lo)),
		m if m >= 16 => MSecurity::Reserved(u16::from(hi) * 256 + u16::from(lo)),
		_ => return no("security: encrypted"),
	};
	Ok(MShort {
		access,
		status,
		security,
		extra: false,
	})
}

fn long_header(c: &mut Cur) -> R<MLong> {
	let id_bytes = c.take(4)?;
	let code = u16::from(c.u8()?) + u16::from(c.u8()?) * 256;
	let version = c.u8()?;
	let device = c.u8()?;
	let tail = short_header(c)?;
	let mut id = 0u32;
	for b in id_bytes.iter().rev() {
		if b / 16 > 9 || b % 16 > 9 {
			return no("identification: not decimal");
		}
		id = id * 100 + u32::from(b / 16) * 10 + u32::from(b % 16);
	}
	let Some(manufacturer) = tables::unpack_manufacturer(code) else {
		return no("manufacturer: not letters");
	};
	// bit 15 marks an address that is unique in its installation only; whether
	// the product is looked up for those is open
	let product = if code & 0x8000 != 0 {
		None
	} else {
		Some(tables::product(&manufacturer, id_bytes[3], version, device).map(str::to_owned))
	};
	Ok(MLong {
		id,
		manufacturer,
		product,
		version,
		device: tables::device_type(device).into(),
		tail,
	})
}

pub fn header(form: Form, c: &mut Cur) -> R<MHeader> {
	Ok(match form {
		Form::None => MHeader::None,
		Form::Short => MHeader::Short(short_header(c)?),
		Form::Long => MHeader::Long(long_header(c)?),
	})
}

fn application(c: &mut Cur) -> R<Option<MApp>> {
	let d = c.rest();
	match d.len() {
		0 => Ok(None),
		1 => Ok(Some(MApp {
			application: Some(tables::APPLICATIONS[usize::from(d[0] / 16)].into()),
			block: u64::from(d[0] % 16),
		})),
		2..=10 => Ok(Some(MApp {
			application: None,
			block: d.iter().fold(0, |a, b| a * 16 + u64::from(b % 16)),
		})),
		_ => Err(Stop::Open("application parameter of more than ten bytes")),
	}
}

pub fn message(d: &[u8]) -> R<(MMsg, bool)> {
	let mut c = Cur::new(d);
	let ci = c.u8()?;
	let Some((kind, form)) = tables::ci(ci) else {
		return no("CI: reserved or not implemented");
	};
	let h = header(form, &mut c)?;
	let mut lenient = false;
	let msg = match kind {
		Kind::ResetOrSelect => match application(&mut c)? {
			None => MMsg::Reset(h),
			Some(a) => {
				lenient = a.application.is_none();
				MMsg::Select(h, a)
			}
		},
		Kind::SelectedResponse => match application(&mut c)? {
			None => return no("selected application: missing"),
			Some(a) => {
				lenient = a.application.is_none();
				MMsg::SelectedResponse(h, a)
			}
		},
		Kind::SelectedRequest => {
			lenient = c.left() > 0;
			MMsg::SelectedRequest(h)
		}
		Kind::SelectDevice => MMsg::SelectDevice(c.rest().to_vec()),
		Kind::Baud => {
			lenient = c.left() > 0;
			MMsg::Baud(tables::BAUD[usize::from(ci - 0xB8)].into())
		}
		Kind::Sync => {
			lenient = c.left() > 0;
			MMsg::Sync
		}
		Kind::TimeAdjust => MMsg::TimeAdjust(h, c.rest().to_vec()),
		Kind::TimeSync => MMsg::TimeSync(h, c.rest().to_vec()),
		Kind::Alarm => MMsg::Alarm(h, c.rest().to_vec()),
		Kind::Error => {
			if c.left() == 0 {
				MMsg::Error(h, MErr::Named("Unspecified".into()))
			} else {
				let code = c.u8()?;
				let e = match code {
					0xF0 => {
						let r = record(&mut c)?;
						lenient = c.left() > 0;
						MErr::Dynamic(Box::new(r))
					}
					0xF1..=0xFF => MErr::Manufacturer(code, c.rest().to_vec()),
					_ => match tables::application_error(code) {
						Some(name) => {
							lenient = c.left() > 0;
							MErr::Named(name.into())
						}
						None => return no("error code: reserved"),
					},
				};
				MMsg::Error(h, e)
			}
		}
		Kind::Command => MMsg::Command(h, c.rest().to_vec()),
		Kind::Response => MMsg::Response(h, frame(c.rest())?),
		Kind::Afl => MMsg::Afl(c.rest().to_vec()),
		Kind::Dlms => MMsg::Dlms(ci, h, c.rest().to_vec()),
		Kind::Image => MMsg::Image(ci, h, c.rest().to_vec()),
		Kind::Manufacturer => MMsg::Manufacturer(ci, c.rest().to_vec()),
		Kind::SecurityTransfer => MMsg::SecurityTransfer(ci, h, c.rest().to_vec()),
		Kind::Specific => MMsg::Specific(ci, h, c.rest().to_vec()),
		Kind::Wireless => {
			lenient = c.left() > 0;
			MMsg::Wireless(ci, h)
		}
	};
	Ok((msg, lenient))
}

pub fn frame(d: &[u8]) -> R<MFrame> {
	let mut c = Cur::new(d);
	let mut out = MFrame {
		records: Vec::new(),
		more: false,
		manufacturer: Vec::new(),
	};
	while c.left() > 0 {
		match c.d[c.p] {
			0x2F => c.p += 1,
			m @ (0x0F | 0x1F) => {
				c.p += 1;
				out.more = m == 0x1F;
				out.manufacturer = c.rest().to_vec();
			}
			_ => out.records.push(record(&mut c)?),
		}
	}
	Ok(out)
}

pub struct Dib {
	pub code: u8,
	pub function: u8,
	pub storage: u128,
	pub tariff: u128,
	pub device: u128,
	pub obis: bool,
}

pub const FUNCTIONS: [&str; 4] = [
	"InstantaneousValue",
	"MaximumValue",
	"MinimumValue",
	"ValueDuringErrorState",
];

/// How the library prints the data field
pub fn raw_name(code: u8) -> &'static str {
	match code {
		0x0 => "None",
		0x1 => "Binary(1)",
		0x2 => "Binary(2)",
		0x3 => "Binary(3)",
		0x4 => "Binary(4)",
		0x5 => "Real",
		0x6 => "Binary(6)",
		0x7 => "Binary(8)",
		0x9 => "BCD(1)",
		0xA => "BCD(2)",
		0xB => "BCD(3)",
		0xC => "BCD(4)",
		0xD => "LVAR",
		0xE => "BCD(6)",
		_ => "?",
	}
}

/// Bytes of data, None for variable length
pub fn width(code: u8) -> Option<usize> {
	match code {
		0x0 => Some(0),
		0x1 | 0x9 => Some(1),
		0x2 | 0xA => Some(2),
		0x3 | 0xB => Some(3),
		0x4 | 0x5 | 0xC => Some(4),
		0x6 | 0xE => Some(6),
		0x7 => Some(8),
		_ => None,
	}
}

pub fn dib(c: &mut Cur) -> R<Dib> {
	let dif = c.u8()?;
	let code = dif & 0x0F;
	if code == 8 || code == 15 {
		return no("DIF: reserved data field");
	}
	let mut out = Dib {
		code,
		function: (dif >> 4) & 3,
		storage: u128::from((dif >> 6) & 1),
		tariff: 0,
		device: 0,
		obis: false,
	};
	let mut more = dif & 0x80 != 0;
	let mut n = 0u32;
	while more {
		if n == 10 {
			return no("DIFE: chain too long");
		}
		let e = c.u8()?;
		more = e & 0x80 != 0;
		if e == 0 {
			out.obis = true;
		}
		let e = u128::from(e);
		out.storage += (e % 16) * 2 * 16u128.pow(n);
		out.tariff += (e / 16 % 4) * 4u128.pow(n);
		out.device += (e / 64 % 2) * 2u128.pow(n);
		n += 1;
	}
	Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Unit {
	Code(Table, u8),
	Invalid(u8),
	Text(String),
	Manufacturer,
	Any,
}

pub fn vib(c: &mut Cur) -> R<(Unit, Option<Vec<u8>>)> {
	let vif = c.u8()?;
	let mut more = vif & 0x80 != 0;
	let unit = match vif & 0x7F {
		v @ 0..=0x7A => Unit::Code(Table::Primary, v),
		0x7C => {
			let n = usize::from(c.u8()?);
			let raw = c.take(n)?;
			if raw.is_ascii() {
				Unit::Text(raw.iter().rev().map(|b| *b as char).collect())
			} else if std::str::from_utf8(raw).is_ok() {
				return Err(Stop::Open("plain text unit that is not ASCII"));
			} else {
				return no("plain text unit: not text");
			}
		}
		0x7E => Unit::Any,
		0x7F => Unit::Manufacturer,
		v if !more => Unit::Invalid(v),
		0x7B => {
			let e = c.u8()?;
			more = e & 0x80 != 0;
			Unit::Code(Table::Fb, e & 0x7F)
		}
		_ => {
			let e = c.u8()?;
			more = e & 0x80 != 0;
			if e & 0x7F == 0x7D {
				if !more {
					return no("VIFE: second level missing");
				}
				let e = c.u8()?;
				more = e & 0x80 != 0;
				Unit::Code(Table::FdFd, e & 0x7F)
			} else {
				Unit::Code(Table::Fd, e & 0x7F)
			}
		}
	};
	let vifes = if more {
		let mut v = Vec::new();
		loop {
			let e = c.u8()?;
			v.push(e & 0x7F);
			if e & 0x80 == 0 {
				break;
			}
		}
		Some(v)
	} else {
		None
	};
	Ok((unit, vifes))
}

pub fn signed(d: &[u8]) -> i64 {
	let mut v: i128 = 0;
	for (i, b) in d.iter().enumerate() {
		v += i128::from(*b) << (8 * i);
	}
	if d.last().is_some_and(|b| *b >= 0x80) {
		v -= 1i128 << (8 * d.len());
	}
	v as i64
}

pub fn unsigned(d: &[u8]) -> u64 {
	let mut v: u128 = 0;
	for (i, b) in d.iter().enumerate() {
		v += u128::from(*b) << (8 * i);
	}
	v as u64
}

/// Digits most significant first, and whether the top nibble is F
fn digits(d: &[u8]) -> (Vec<u8>, bool) {
	let mut n: Vec<u8> = d.iter().rev().flat_map(|b| [b / 16, b % 16]).collect();
	let neg = n.first() == Some(&15);
	if neg {
		n[0] = 0;
	}
	(n, neg)
}

pub fn bcd(d: &[u8]) -> MData {
	let (n, neg) = digits(d);
	if n.iter().all(|v| *v < 10) {
		let v = n.iter().fold(0i64, |a, v| a * 10 + i64::from(*v));
		MData::Signed(if neg { -v } else { v })
	} else {
		let mut text: String = n
			.iter()
			.map(|v| char::from_digit(u32::from(*v), 16).unwrap().to_ascii_uppercase())
			.collect();
		if neg {
			text.replace_range(0..1, "-");
		}
		MData::Error(text)
	}
}

/// windows-1252, the WHATWG reading of "latin-1"
pub fn latin1(b: u8) -> char {
	const HIGH: [u16; 32] = [
		0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160,
		0x2039, 0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013,
		0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
	];
	match b {
		0x80..=0x9F => char::from_u32(u32::from(HIGH[usize::from(b - 0x80)])).unwrap(),
		_ => b as char,
	}
}

pub fn text(d: &[u8]) -> String {
	d.iter().rev().map(|b| latin1(*b)).collect()
}

fn date_fields(a: u8, b: u8) -> R<(u8, u8, u8)> {
	if a == 0xFF && b == 0xFF {
		return no("date: marked invalid");
	}
	let day = a & 0x1F;
	let month = b & 0x0F;
	let year = (a >> 5) | ((b >> 4) << 3);
	if month == 13 || month == 14 {
		return no("date: month");
	}
	if year > 99 && year != 127 {
		return no("date: year");
	}
	Ok((day, month, year))
}

fn clock(v: u8, max: u8, every: u8, why: &'static str) -> R<u8> {
	if v <= max || v == every {
		Ok(v)
	} else {
		no(why)
	}
}

pub fn type_f(d: &[u8]) -> R<MData> {
	if d[0] & 0x80 != 0 {
		return no("type F: marked invalid");
	}
	if d[0] & 0x40 != 0 {
		return no("type F: reserved bit");
	}
	let minute = clock(d[0] & 0x3F, 59, 63, "minute")?;
	let hour = clock(d[1] & 0x1F, 23, 31, "hour")?;
	let (day, month, year) = date_fields(d[2], d[3])?;
	let mut century = (d[1] >> 5) & 3;
	if century == 0 && year <= 80 {
		century = 1;
	}
	Ok(MData::F {
		minute,
		hour,
		day,
		month,
		year,
		century,
		dst: d[1] & 0x80 != 0,
	})
}

pub fn type_g(d: &[u8]) -> R<MData> {
	let (day, month, year) = date_fields(d[0], d[1])?;
	Ok(MData::G { day, month, year })
}

pub fn type_i(d: &[u8]) -> R<MData> {
	let second = clock(d[0] & 0x3F, 59, 63, "second")?;
	if d[1] & 0x80 != 0 {
		return no("type I: marked invalid");
	}
	let minute = clock(d[1] & 0x3F, 59, 63, "minute")?;
	let hour = clock(d[2] & 0x1F, 23, 31, "hour")?;
	let (day, month, year) = date_fields(d[3], d[4])?;
	let week = d[5] & 0x3F;
	if week > 53 {
		return no("week");
	}
	let shift = (d[5] >> 6) as i8;
	Ok(MData::I {
		second,
		minute,
		hour,
		day,
		month,
		year,
		weekday: d[2] >> 5,
		week,
		dst: d[0] & 0x40 != 0,
		leap: d[0] & 0x80 != 0,
		offset: if d[1] & 0x40 != 0 { shift } else { -shift },
	})
}

pub fn type_j(d: &[u8]) -> R<MData> {
	if d[0] >= 64 || d[1] >= 64 || d[2] >= 32 {
		return no("type J: marked invalid or reserved bits");
	}
	Ok(MData::J {
		second: clock(d[0], 59, 63, "second")?,
		minute: clock(d[1], 59, 63, "minute")?,
		hour: clock(d[2], 23, 31, "hour")?,
	})
}

pub fn type_k(d: &[u8]) -> R<MData> {
	let hour = clock(d[0] & 0x1F, 23, 31, "hour")?;
	let start_day = d[1] & 0x1F;
	let end_day = d[2] & 0x1F;
	let start_month = d[3] & 0x0F;
	let end_month = d[3] >> 4;
	if start_day == 0 || end_day == 0 {
		return no("day");
	}
	if !(1..=12).contains(&start_month) || !(1..=12).contains(&end_month) {
		return no("month");
	}
	let local = clock((d[0] >> 5) | ((d[1] >> 5) & 3) << 3, 23, 31, "local deviation")?;
	let dev = ((d[2] >> 5) & 3) as i8;
	Ok(MData::K {
		hour,
		start_day,
		start_month,
		end_day,
		end_month,
		enable: d[1] & 0x80 != 0,
		deviation: if d[2] & 0x80 != 0 { dev } else { -dev },
		local,
	})
}

fn integer(d: &[u8], sign: Sign) -> MData {
	match sign {
		Sign::Signed => MData::Signed(signed(d)),
		Sign::Unsigned => MData::Unsigned(unsigned(d)),
		Sign::Open => MData::Either(signed(d), unsigned(d)),
	}
}

/// What the LVAR prefix says: bytes of the value
pub fn lvar_size(prefix: u8) -> Option<usize> {
	Some(usize::from(match prefix {
		0x00..=0xBF => prefix,
		0xC0..=0xC9 => prefix - 0xC0,
		0xD0..=0xD9 => prefix - 0xD0,
		0xE0..=0xEF => prefix - 0xE0,
		0xF0..=0xF4 => (prefix - 0xEC) * 4,
		0xF5 => 48,
		0xF6 => 64,
		_ => return None,
	}))
}

fn lvar(c: &mut Cur, sign: Sign) -> R<MData> {
	let prefix = c.u8()?;
	let Some(n) = lvar_size(prefix) else {
		return no("LVAR: reserved prefix");
	};
	let d = c.take(n)?;
	Ok(match prefix {
		0x00..=0xBF => MData::Text(text(d)),
		0xC0..=0xC9 | 0xD0..=0xD9 => {
			let (_, top_f) = digits(d);
			match bcd(d) {
				MData::Signed(_) if top_f && prefix >= 0xD0 => {
					return Err(Stop::Open("negative LVAR BCD with a sign of its own"))
				}
				MData::Signed(0) if top_f => {
					return Err(Stop::Open("positive LVAR BCD of minus zero"))
				}
				MData::Signed(_) if top_f => return no("LVAR: minus in a positive BCD"),
				MData::Signed(v) => MData::Signed(if prefix >= 0xD0 { -v } else { v }),
				_ => return no("LVAR: bad BCD"),
			}
		}
		0xE0..=0xE8 => integer(d, sign),
		_ => MData::Big(d.to_vec()),
	})
}

pub fn record(c: &mut Cur) -> R<MRecord> {
	let dib = dib(c)?;
	let (unit, vifes) = vib(c)?;
	let mut sign = Sign::Signed;
	let mut date: Option<fn(&[u8]) -> R<MData>> = None;
	let unit = match unit {
		Unit::Code(Table::Primary, 0x6C) => {
			if dib.code == 2 {
				date = Some(type_g);
				MUnit::Named("TypeGDate".into())
			} else {
				MUnit::Named("Invalid(108)".into())
			}
		}
		Unit::Code(Table::Primary, 0x6D) => MUnit::Named(
			match dib.code {
				3 => {
					date = Some(type_j);
					"TypeJTime"
				}
				4 => {
					date = Some(type_f);
					"TypeFDateTime"
				}
				6 => {
					date = Some(type_i);
					"TypeIDateTime"
				}
				13 => "TypeMDatetime",
				_ => "Invalid(109)",
			}
			.into(),
		),
		Unit::Code(Table::Fd, 0x72) => {
			if dib.code == 4 {
				date = Some(type_k);
				MUnit::Named("DSTTypeK".into())
			} else {
				MUnit::Named("Invalid(114)".into())
			}
		}
		Unit::Code(t, code) => {
			sign = tables::sign(t, code);
			MUnit::Named(tables::quantity(t, code).into())
		}
		Unit::Invalid(v) => MUnit::Named(format!("Invalid({v})")),
		Unit::Manufacturer => MUnit::Named("ManufacturerSpecific".into()),
		Unit::Any => MUnit::Named("Any".into()),
		Unit::Text(t) => MUnit::Text(t),
	};
	let data = match (date, width(dib.code)) {
		(Some(f), Some(n)) => f(c.take(n)?)?,
		(_, None) => lvar(c, sign)?,
		(None, Some(n)) => {
			let d = c.take(n)?;
			match dib.code {
				0 => MData::None,
				5 => MData::Real(unsigned(d) as u32),
				0x9..=0xE => bcd(d),
				_ => integer(d, sign),
			}
		}
	};
	Ok(MRecord {
		raw: raw_name(dib.code).into(),
		function: FUNCTIONS[usize::from(dib.function)].into(),
		storage: dib.storage,
		tariff: dib.tariff,
		device: dib.device,
		obis: dib.obis,
		unit,
		vifes,
		data,
	})
}
