//! C12 BCD, C13 binary and real, C14 variable-length data, C15 text

use libmbus::parse::application_layer::record::Record;
use libmbus::parse::types::DataType;
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
use winnow::prelude::*;
use winnow::Bytes;

use super::*;
use crate::engine::{Outcome, Plan, Sub};
use crate::enc::EUnit;
use crate::tables::{self, Sign, Table};

/// Units that say nothing about the type of the data
const PLAIN_UNITS: [(Table, u8); 6] = [
	(Table::Primary, 0x13),
	(Table::Primary, 0x03),
	(Table::Primary, 0x78),
	(Table::Primary, 0x6E),
	(Table::Fd, 0x3A),
	(Table::Fb, 0x00),
];

fn one_record(dif: u8, unit: (Table, u8), data: &[u8]) -> Vec<u8> {
	let mut b = vec![dif];
	b.extend(enc::vib_of(EUnit::Code(unit.0, unit.1), None).bytes);
	b.extend_from_slice(data);
	b.extend(SENTINEL);
	b
}

/// Run one of the library's value parsers over all of its input
fn direct<T>(
	d: &[u8],
	parser: impl for<'a> FnOnce(&'a Bytes) -> Result<T, String>,
) -> Obs<T> {
	match obs::catch(|| parser(Bytes::new(d))) {
		Err(p) => Obs::Panic(p),
		Ok(Err(e)) => Obs::Rej(e),
		Ok(Ok(v)) => Obs::Ok(v),
	}
}

macro_rules! whole {
	($p:expr) => {
		|d| $p.parse(d).map_err(|e| obs::inner(e.into_inner()))
	};
}

fn eq<T: PartialEq + std::fmt::Debug>(e: &T, a: &T) -> Option<String> {
	(e != a).then(|| format!("expected {e:?}, got {a:?}"))
}

// ---------------------------------------------------------------------------
// C12

pub const C12: &[Sub] = &[
	Sub {
		name: "one and two bytes",
		plan: Plan::Enumerate {
			count: (256 + 65536) * 6,
			tail: 1,
		},
		rule: "all values of one and two byte BCD fields, under six units. Every case counts",
		run: c12_small,
	},
	Sub {
		name: "three bytes",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 2,
		},
		rule: "all 2^24 values of three byte BCD fields (blocks of 256)",
		run: c12_three,
	},
	Sub {
		name: "numbers in any width",
		plan: Plan::Random {
			tape: 64,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "signed decimal numbers written into 1, 2, 3, 4 and 6 bytes: the number must come back",
		run: c12_numbers,
	},
	Sub {
		name: "one bad digit",
		plan: Plan::Random {
			tape: 64,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "1 to 6 byte fields of decimal digits with one nibble replaced: never a number unless \
		       it is the sign, all nibbles in the text",
		run: c12_bad,
	},
	Sub {
		name: "any nibbles",
		plan: Plan::Random {
			tape: 64,
			quick: 300_000,
			thorough: 20_000_000,
		},
		rule: "arbitrary nibbles, half of them decimal digits with a sign nibble of 0, 9, A or F",
		run: c12_any,
	},
	Sub {
		name: "number decoder",
		plan: Plan::Random {
			tape: 64,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "0 to 9 bytes given to the BCD decoder itself, whole, one short or one too many",
		run: c12_direct,
	},
	Sub {
		name: "error text decoder",
		plan: Plan::Random {
			tape: 64,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "1 to 16 bytes given to the decoder of malformed BCD: every nibble, in order",
		run: c12_text,
	},
];

fn c12_small(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let unit = PLAIN_UNITS[i % 6];
	let c = carrier(t);
	let v = i / 6;
	let body = if v < 256 {
		one_record(0x09, unit, &[v as u8])
	} else {
		one_record(0x0A, unit, &((v - 256) as u16).to_le_bytes())
	};
	body_outcome(c, &body, data_part)
}

fn c12_three(t: &mut Tape) -> Outcome {
	let i = t.index() as u16;
	let unit = PLAIN_UNITS[t.below(6)];
	for v in 0..=255u8 {
		let [a, b] = i.to_le_bytes();
		let body = one_record(0x0B, unit, &[v, a, b]);
		if let (Some(w), _) = judge_body(CARRIERS[0], &body, data_part) {
			return Outcome::new(&response(CARRIERS[0], &body)).fail(w);
		}
	}
	Outcome::block(&i.to_le_bytes(), 256)
}

fn width_code(t: &mut Tape) -> (u8, usize) {
	t.pick(&[(9, 1), (10, 2), (11, 3), (12, 4), (14, 6)])
}

/// A unit that does not make a date of BCD data, which is any
fn any_unit(t: &mut Tape) -> (Table, u8) {
	if t.bool() {
		t.pick(&PLAIN_UNITS)
	} else {
		match enc::unit(t) {
			EUnit::Code(a, b) => (a, b),
			_ => (Table::Fd, 0x3A),
		}
	}
}

fn c12_numbers(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let (code, n) = width_code(t);
	let (bytes, v) = enc::bcd_digits(t, n, true);
	let unit = any_unit(t);
	let function = t.u8() & 0x70;
	let body = one_record(code | function, unit, &bytes);
	let o = Outcome::new(&response(c, &body)).tag(if v < 0 { "negative" } else { "not negative" });
	o.verdict(bcd_is(c, &body, &MData::Signed(v)))
}

fn bcd_is(c: &[u8], body: &[u8], want: &MData) -> Option<String> {
	match decode_body(c, body) {
		Obs::Panic(p) => Some(format!("panicked: {p}")),
		Obs::Rej(e) => Some(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Ok(f) if f.records.len() != 2 => Some(format!("not two records: {:?}", f.records)),
		Obs::Ok(f) => diff_data(want, &f.records[0].data),
	}
}

fn c12_bad(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let (code, n) = width_code(t);
	let (mut bytes, _) = enc::bcd_digits(t, n, true);
	let at = t.below(2 * n);
	let with = 10 + t.u8() % 6;
	let b = &mut bytes[at / 2];
	*b = if at % 2 == 0 { *b & 0xF0 | with } else { *b & 0x0F | with << 4 };
	let unit = any_unit(t);
	let body = one_record(code, unit, &bytes);
	// written out here once more, from the property's words
	let text: String = bytes.iter().rev().map(|b| format!("{b:02X}")).collect();
	let sign_only = at == 2 * n - 1 && with == 15;
	let want = if sign_only {
		MData::Signed(-text[1..].parse::<i64>().unwrap())
	} else if let Some(rest) = text.strip_prefix('F') {
		MData::Error(format!("-{rest}"))
	} else {
		MData::Error(text)
	};
	Outcome::new(&response(c, &body))
		.nontrivial(!sign_only)
		.tag(match (at == 2 * n - 1, sign_only) {
			(_, true) => "the sign",
			(true, _) => "bad top nibble",
			_ => "bad digit",
		})
		.verdict(bcd_is(c, &body, &want))
}

fn c12_any(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let (code, n) = width_code(t);
	let mut bytes = t.data(n);
	if t.bool() {
		for b in &mut bytes {
			*b = *b / 16 % 10 * 16 + *b % 16 % 10;
		}
		let top = t.pick(&[0u8, 9, 10, 15]);
		bytes[n - 1] = bytes[n - 1] & 0x0F | top << 4;
	}
	let unit = any_unit(t);
	let body = one_record(code, unit, &bytes);
	body_outcome(c, &body, data_part)
}

fn c12_direct(t: &mut Tape) -> Outcome {
	let n = t.below(10);
	let (mut bytes, _) = enc::bcd_digits(t, n, true);
	if n > 0 && t.chance(1, 3) {
		bytes[t.below(n)] = t.u8();
	}
	let off = t.u8() % 8;
	match off {
		0 if n > 0 => {
			bytes.pop();
		}
		1 => bytes.push(t.u8()),
		_ => {}
	}
	let expected: Result<i64, Stop> = if bytes.len() != n {
		Err(Stop::Reject("wrong number of bytes"))
	} else {
		match model::bcd(&bytes) {
			MData::Signed(v) => Ok(v),
			_ => Err(Stop::Reject("not decimal")),
		}
	};
	let got = direct(&bytes, whole!(parse_bcd(n)));
	let mut input = vec![n as u8];
	input.extend(&bytes);
	Outcome::new(&input)
		.tag(if expected.is_ok() { "number" } else { "no number" })
		.verdict(obs::judge(&expected, &got, eq, false))
}

fn c12_text(t: &mut Tape) -> Outcome {
	let n = t.range(1, 16);
	let bytes: Vec<u8> = (0..n).map(|_| t.edge_u8()).collect();
	let text: String = bytes.iter().rev().map(|b| format!("{b:02X}")).collect();
	let want = match text.strip_prefix('F') {
		Some(rest) => format!("-{rest}"),
		None => text,
	};
	let expected: Result<String, Stop> = Ok(want);
	let got = direct(&bytes, whole!(parse_invalid_bcd(n)));
	Outcome::new(&bytes).verdict(obs::judge(&expected, &got, eq, false))
}

// ---------------------------------------------------------------------------
// C13

pub const C13: &[Sub] = &[
	Sub {
		name: "one and two bytes under every unit",
		plan: Plan::Enumerate {
			count: 4 * 128 * 257,
			tail: 2,
		},
		rule: "all codes of the four tables (but dates) x all 65536 values of a two byte and 256 of \
		       a one byte field (blocks of 256): value and signedness. Every case counts",
		run: c13_small,
	},
	Sub {
		name: "numbers in any width",
		plan: Plan::Random {
			tape: 64,
			quick: 700_000,
			thorough: 30_000_000,
		},
		rule: "numbers, those at the limits of each width and single bits among them, as 1, 2, 3, \
		       4, 6 or 8 byte fields under any unit: the number must come back",
		run: c13_numbers,
	},
	Sub {
		name: "fixed and variable width agree",
		plan: Plan::Random {
			tape: 64,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "0 to 8 bytes under any unit as a variable-length number and, where there is such a \
		       width, as a fixed field: the same number, and the one the bytes hold",
		run: c13_lvar,
	},
	Sub {
		name: "three bytes",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 2,
		},
		rule: "all 2^24 values of a three byte field (blocks of 256), signed and unsigned in turn",
		run: c13_three,
	},
	Sub {
		name: "reals",
		plan: Plan::Random {
			tape: 32,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "32 bit patterns, those of zeros, infinities, NaN, subnormals and small decimals more \
		       often, under any unit: the same bits must come back (but for a NaN's quiet bit)",
		run: c13_real,
	},
	Sub {
		name: "number decoders",
		plan: Plan::Random {
			tape: 48,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "0 to 8 bytes given to the signed and the unsigned decoder and 4 to the real decoder, \
		       whole, short or too long",
		run: c13_direct,
	},
	Sub {
		name: "kinds of quantity",
		plan: Plan::Enumerate {
			count: 4 * 128 * 3,
			tail: 0,
		},
		rule: "every code of every table, in one byte, four bytes and variable width: the quantity \
		       says that it is unsigned exactly if its binary values come out so, and that it is \
		       boolean exactly if it is one of the bit fields. Non-trivial if the code is a quantity",
		run: c13_kind,
	},
];

fn c13_kind(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let table = [Table::Primary, Table::Fd, Table::FdFd, Table::Fb][i % 4];
	let code = (i / 4 % 128) as u8;
	let (dif, data): (u8, &[u8]) = match i / 512 {
		0 => (0x01, &[0x81]),
		1 => (0x04, &[0x81, 0x22, 0xC3, 0x84]),
		_ => (0x0D, &[0xE2, 0x81, 0x82]),
	};
	let body = one_record(dif, (table, code), data);
	let skip = matches!((table, code), (Table::Primary, 0x7B..=0x7F) | (Table::Fd, 0x7D));
	let r = obs::catch(|| Record::parse(&mut Bytes::new(&body)));
	let out = Outcome::new(&body);
	let Ok(Ok(r)) = r else { return out.nontrivial(false) };
	if skip {
		return out.nontrivial(false);
	}
	let name = tables::quantity(table, code);
	let flags = ["ErrorFlags", "DigitalOutput", "DigitalInput", "RemoteControl"].contains(&name);
	if r.vib.value_type.is_boolean() != flags {
		return out.fail(format!("{name}: boolean is {}", !flags));
	}
	let unsigned = r.vib.value_type.is_unsigned();
	match (&r.data, tables::sign(table, code)) {
		(DataType::Unsigned(_), _) if !unsigned => {
			out.fail(format!("{name}: says it is signed, but gives {:?}", r.data))
		}
		(DataType::Signed(_), _) if unsigned => {
			out.fail(format!("{name}: says it is unsigned, but gives {:?}", r.data))
		}
		(_, Sign::Unsigned) if !unsigned && !matches!(r.data, DataType::DateTimeF(_)) => {
			out.fail(format!("{name}: says it is signed"))
		}
		(_, Sign::Signed) if unsigned => out.fail(format!("{name}: says it is unsigned")),
		_ => out.tag(if unsigned { "unsigned" } else { "signed" }),
	}
}

fn c13_small(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let table = [Table::Primary, Table::Fd, Table::FdFd, Table::Fb][i % 4];
	let v = (i / 4 % 128) as u8;
	let high = i / 512;
	let skip = match table {
		// dates, and codes that are none of the table's
		Table::Primary => v >= 0x7B || v == 0x6C,
		Table::Fd => v == 0x7D,
		_ => false,
	};
	if skip {
		return Outcome::new(&[]).nontrivial(false);
	}
	for low in 0..=255u8 {
		let body = if high < 256 {
			one_record(0x02, (table, v), &[low, high as u8])
		} else {
			one_record(0x01, (table, v), &[low])
		};
		if let (Some(w), _) = judge_body(CARRIERS[0], &body, data_part) {
			return Outcome::new(&response(CARRIERS[0], &body)).fail(w);
		}
	}
	Outcome::block(&[table as u8, v, (high >> 8) as u8, high as u8], 256).tag(
		match tables::sign(table, v) {
			Sign::Signed => "signed",
			Sign::Unsigned => "unsigned",
			Sign::Open => "signedness not claimed",
		},
	)
}

fn number_unit(t: &mut Tape) -> (Table, u8) {
	loop {
		let u = match t.u8() % 4 {
			0 => (Table::Primary, t.below(0x7B) as u8),
			1 => (Table::Fb, t.u8() & 0x7F),
			2 => (Table::FdFd, t.u8() % 4),
			_ => (Table::Fd, t.u8() & 0x7F),
		};
		match u {
			(Table::Primary, 0x6C | 0x6D) | (Table::Fd, 0x72 | 0x7D) => {
				return (Table::Fd, 0x3A);
			}
			_ => return u,
		}
	}
}

fn c13_numbers(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let (code, n) = t.pick(&[(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (7, 8)]);
	let unit = number_unit(t);
	let sign = tables::sign(unit.0, unit.1);
	let (bytes, want) = enc::integer(t, n, sign);
	let body = one_record(code | t.u8() & 0x70, unit, &bytes);
	Outcome::new(&response(c, &body))
		.tag(match sign {
			Sign::Signed => "signed",
			Sign::Unsigned => "unsigned",
			Sign::Open => "signedness not claimed",
		})
		.verdict(bcd_is(c, &body, &want))
}

fn c13_lvar(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let n = t.below(9);
	let unit = number_unit(t);
	let (bytes, want) = enc::integer(t, n, tables::sign(unit.0, unit.1));
	let mut data = vec![0xE0 + n as u8];
	data.extend_from_slice(&bytes);
	let variable = one_record(0x0D, unit, &data);
	let o = Outcome::new(&response(c, &variable));
	if let Some(w) = bcd_is(c, &variable, &want) {
		return o.fail(w);
	}
	let code = match n {
		1..=4 | 6 => n as u8,
		8 => 7,
		_ => return o.tag("variable only"),
	};
	let fixed = one_record(code, unit, &bytes);
	match (decode_body(c, &variable), decode_body(c, &fixed)) {
		(Obs::Ok(x), Obs::Ok(y)) if x.records[0].data == y.records[0].data => o.tag("both"),
		(Obs::Ok(x), Obs::Ok(y)) => o.fail(format!(
			"variable width gives {:?}, fixed width {:?}",
			x.records[0].data,
			y.records.first().map(|r| &r.data)
		)),
		(x, y) => o.fail(format!(
			"variable width is {}, fixed width {}",
			x.describe(),
			y.describe()
		)),
	}
}

fn c13_three(t: &mut Tape) -> Outcome {
	let i = t.index() as u16;
	let unit = t.pick(&[(Table::Primary, 0x13), (Table::Fd, 0x08)]);
	let [a, b] = i.to_le_bytes();
	for v in 0..=255u8 {
		let body = one_record(0x03, unit, &[v, a, b]);
		if let (Some(w), _) = judge_body(CARRIERS[0], &body, data_part) {
			return Outcome::new(&response(CARRIERS[0], &body)).fail(w);
		}
	}
	Outcome::block(&i.to_le_bytes(), 256)
}

fn real_bits(t: &mut Tape) -> u32 {
	match t.u8() % 8 {
		0 => t.pick(&[
			0,
			0x8000_0000,
			0x7F80_0000,
			0xFF80_0000,
			0x7FC0_0000,
			0xFFC0_0001,
			0x7F80_0001,
			0xFFFF_FFFF,
			0x7FFF_FFFF,
			1,
			0x8000_0001,
			0x007F_FFFF,
			0x0080_0000,
			0x7F7F_FFFF,
			0x3F80_0000,
			0xBF80_0000,
		]),
		1 => (f32::from(t.u16() as i16) / 10.0).to_bits(),
		2 => 0x7F80_0000 | t.u32() & 0x807F_FFFF,
		3 => t.u32() & 0x807F_FFFF,
		4 => 1 << (t.u8() % 32),
		_ => t.u32(),
	}
}

fn c13_real(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let bits = real_bits(t);
	let unit = number_unit(t);
	let body = one_record(0x05 | t.u8() & 0x70, unit, &bits.to_le_bytes());
	let v = f32::from_bits(bits);
	Outcome::new(&response(c, &body))
		.tag(if v.is_nan() {
			"NaN"
		} else if v.is_infinite() {
			"infinite"
		} else if v == 0.0 {
			"zero"
		} else if v.is_subnormal() {
			"subnormal"
		} else {
			"normal"
		})
		.verdict(bcd_is(c, &body, &MData::Real(bits)))
}

fn c13_direct(t: &mut Tape) -> Outcome {
	let n = t.below(9);
	let (mut bytes, want) = enc::integer(t, n, Sign::Open);
	let MData::Either(s, u) = want else {
		unreachable!()
	};
	let off = t.u8() % 8;
	match off {
		0 if n > 0 => {
			bytes.pop();
		}
		1 => bytes.push(t.u8()),
		_ => {}
	}
	let fits = bytes.len() == n;
	let e = |v| if fits { Ok(v) } else { Err(Stop::Reject("wrong number of bytes")) };
	let mut input = vec![n as u8];
	input.extend(&bytes);
	let why = obs::judge(
		&e(i128::from(s)),
		&direct(&bytes, whole!(parse_binary_signed(n).map(i128::from))),
		eq,
		false,
	)
	.or_else(|| {
		obs::judge(
			&e(i128::from(u)),
			&direct(&bytes, whole!(parse_binary_unsigned(n).map(i128::from))),
			eq,
			false,
		)
	})
	.or_else(|| {
		let bits = real_bits(t);
		let mut b = bits.to_le_bytes().to_vec();
		if off == 0 {
			b.pop();
		}
		let e = if off == 0 { Err(Stop::Reject("too short")) } else { Ok(MData::Real(bits)) };
		obs::judge(
			&e,
			&direct(&b, whole!(parse_real.map(|v| MData::Real(v.to_bits())))),
			diff_data,
			false,
		)
	});
	Outcome::new(&input).verdict(why)
}

// ---------------------------------------------------------------------------
// C14

pub const C14: &[Sub] = &[
	Sub {
		name: "every prefix",
		plan: Plan::Enumerate {
			count: 256 * 2500,
			tail: 300,
		},
		rule: "all 256 prefix bytes x 2500 generated values (decimal digits where the prefix calls \
		       for them in most) under signed and unsigned units, and another record after it. \
		       Every case counts",
		run: c14_every,
	},
	Sub {
		name: "encoded values",
		plan: Plan::Random {
			tape: 400,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "encoded text, positive and negative BCD, binary and large numbers of every size: the \
		       value must come back, and the next record",
		run: c14_made,
	},
	Sub {
		name: "values cut short",
		plan: Plan::Random {
			tape: 400,
			quick: 150_000,
			thorough: 6_000_000,
		},
		rule: "an encoded value with one or more of its last bytes missing at the end of the \
		       frame: rejected; non-trivial if it had any byte",
		run: c14_cut,
	},
	Sub {
		name: "every prefix at the end of a frame",
		plan: Plan::Enumerate {
			count: 256 * 200,
			tail: 8,
		},
		rule: "all 256 prefix bytes x all numbers of bytes left in the frame up to 199",
		run: c14_end,
	},
	Sub {
		name: "small variable BCD",
		plan: Plan::Enumerate {
			count: 2 * (1 + 256 + 65536),
			tail: 0,
		},
		rule: "all zero, one and two byte positive and negative variable-length BCD values",
		run: c14_bcd,
	},
];

fn lvar_unit(t: &mut Tape) -> (Table, u8) {
	t.pick(&[
		(Table::Primary, 0x13),
		(Table::Fd, 0x10),
		(Table::Fd, 0x11),
		(Table::Primary, 0x6D),
		(Table::Primary, 0x79),
		(Table::Fd, 0x3A),
		(Table::FdFd, 0x02),
	])
}

fn c14_every(t: &mut Tape) -> Outcome {
	let p = t.index() as u8;
	let c = carrier(t);
	let unit = lvar_unit(t);
	let n = model::lvar_size(p).unwrap_or(t.u8() as usize % 20);
	let mut data = vec![p];
	let style = t.u8() % 8;
	for _ in 0..n {
		let b = t.u8();
		data.push(match style {
			0 => b,
			1 => 0,
			_ if matches!(p, 0xC0..=0xDF) => b / 16 % 10 * 16 + b % 16 % 10,
			_ => b,
		});
	}
	if style == 2 && n > 0 && matches!(p, 0xC0..=0xDF) {
		let b = data[n];
		data[n] = b & 0x0F | 0xF0;
	}
	let body = one_record(0x0D, unit, &data);
	if body.len() > ROOM {
		return Outcome::new(&body).nontrivial(false);
	}
	body_outcome(c, &body, data_part).tag(match p {
		0x00..=0xBF => "text",
		0xC0..=0xC9 => "positive BCD",
		0xD0..=0xD9 => "negative BCD",
		0xE0..=0xE8 => "binary",
		0xE9..=0xEF | 0xF0..=0xF6 => "large number",
		_ => "reserved",
	})
}

fn c14_made(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let unit = lvar_unit(t);
	let (data, want) = enc::lvar(t, tables::sign(unit.0, unit.1), ROOM - 10);
	let body = one_record(0x0D | t.u8() & 0x70, unit, &data);
	Outcome::new(&response(c, &body))
		.tag(match want {
			MData::Text(_) => "text",
			MData::Big(_) => "large number",
			_ => "number",
		})
		.verdict(bcd_is(c, &body, &want))
}

fn c14_cut(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let cut = t.u8() as usize;
	let unit = lvar_unit(t);
	let (data, _) = enc::lvar(t, tables::sign(unit.0, unit.1), ROOM - 10);
	let mut body = one_record(0x0D, unit, &data);
	let n = data.len();
	body.truncate(body.len() - SENTINEL.len() - 1 - cut % n);
	let o = Outcome::new(&response(c, &body)).nontrivial(n > 1);
	match decode_body(c, &body) {
		Obs::Rej(_) => o,
		Obs::Panic(p) => o.fail(format!("panicked: {p}")),
		Obs::Ok(f) => o.fail(format!("cut short, but accepted as {:?}", f.records)),
	}
}

fn c14_end(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (p, left) = (i as u8, i / 256);
	let digit = t.u8() % 10;
	let mut body = vec![0x0D, 0x13, p];
	body.resize(3 + left, digit);
	// what is left over is read as more records: only whether there is enough counts
	let short = match model::lvar_size(p) {
		None => true,
		Some(n) => n > left,
	};
	let exact = model::lvar_size(p) == Some(left);
	let o = Outcome::new(&response(CARRIERS[0], &body))
		.nontrivial(short || exact)
		.tag(match (short, exact) {
			(true, _) => "too little",
			(_, true) => "exactly enough",
			_ => "more than enough",
		});
	match decode_body(CARRIERS[0], &body) {
		Obs::Panic(p) => o.fail(format!("panicked: {p}")),
		Obs::Ok(f) if short => o.fail(format!("must be rejected, but accepted as {f:?}")),
		Obs::Rej(e) if exact => o.fail(format!("rejected: {}", e.trim().replace('\n', " / "))),
		_ => o,
	}
}

fn c14_bcd(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let base = if i % 2 == 0 { 0xC0 } else { 0xD0 };
	let v = i / 2;
	let data = match v {
		0 => vec![base],
		1..=256 => vec![base + 1, (v - 1) as u8],
		_ => {
			let [a, b] = ((v - 257) as u16).to_le_bytes();
			vec![base + 2, a, b]
		}
	};
	let body = one_record(0x0D, (Table::Primary, 0x13), &data);
	body_outcome(CARRIERS[i % 3], &body, data_part)
}

// ---------------------------------------------------------------------------
// C15

pub const C15: &[Sub] = &[
	Sub {
		name: "every byte value",
		plan: Plan::Enumerate {
			count: 256 * 192,
			tail: 200,
		},
		rule: "all 256 byte values in texts of all lengths 1..=191, among generated bytes, first, \
		       last or alone",
		run: c15_bytes,
	},
	Sub {
		name: "pairs",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 4,
		},
		rule: "all two byte texts, with up to three bytes after them",
		run: c15_pairs,
	},
	Sub {
		name: "texts",
		plan: Plan::Random {
			tape: 300,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "texts of 0..=191 arbitrary bytes, or of bytes that mean something to other \
		       encodings (byte order marks, escape sequences, UTF-8, surrogates); non-trivial with \
		       two or more bytes",
		run: c15_texts,
	},
	Sub {
		name: "plain text units",
		plan: Plan::Random {
			tape: 300,
			quick: 400_000,
			thorough: 15_000_000,
		},
		rule: "plain text units of 0..=200 bytes, ASCII in most, with VIFEs and data after them; a \
		       length beyond the end of the frame in some; non-trivial with one or more bytes",
		run: c15_units,
	},
	Sub {
		name: "plain text unit bytes",
		plan: Plan::Enumerate {
			count: 256 * 8 * 8,
			tail: 16,
		},
		rule: "each byte value at each position of plain text units of 1..=8 characters",
		run: c15_unit_bytes,
	},
];

fn text_is(c: &[u8], bytes: &[u8]) -> (Vec<u8>, Option<String>) {
	let mut data = vec![bytes.len() as u8];
	data.extend_from_slice(bytes);
	let body = one_record(0x0D, (Table::Fd, 0x11), &data);
	// one character for each byte, last first
	let want: String = bytes.iter().rev().map(|b| model::latin1(*b)).collect();
	let why = bcd_is(c, &body, &MData::Text(want));
	(response(c, &body), why)
}

fn c15_bytes(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (b, n) = (i as u8, 1 + i / 256 % 191);
	let mut bytes = match t.u8() % 3 {
		0 => vec![b'a'; n],
		1 => t.bytes(n),
		_ => vec![b; n],
	};
	let at = match t.u8() % 3 {
		0 => 0,
		1 => n - 1,
		_ => t.below(n),
	};
	bytes[at] = b;
	let (input, why) = text_is(carrier(t), &bytes);
	Outcome::new(&input).verdict(why)
}

fn c15_pairs(t: &mut Tape) -> Outcome {
	let i = t.index() as u16;
	let mut bytes = i.to_le_bytes().to_vec();
	let n = t.below(4);
	bytes.extend(t.bytes(n));
	let (input, why) = text_is(carrier(t), &bytes);
	Outcome::new(&input).verdict(why)
}

const SPECIAL: [&[u8]; 14] = [
	&[0xEF, 0xBB, 0xBF],
	&[0xFF, 0xFE],
	&[0xFE, 0xFF],
	&[0xBF, 0xBB, 0xEF],
	&[0x2B, 0x2F, 0x76],
	&[0xC3, 0xA9],
	&[0xE2, 0x82, 0xAC],
	&[0xF0, 0x9F, 0x98, 0x80],
	&[0x1B, 0x24, 0x42],
	&[0x00],
	&[0x0D, 0x0A],
	&[0x80, 0x81, 0x8D, 0x8F, 0x90, 0x9D],
	&[0xED, 0xA0, 0x80],
	b"<?xml",
];

fn c15_texts(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let n = t.len(191);
	let mut bytes = if t.bool() { t.data(n) } else { vec![b'x'; n] };
	let specials = t.below(3);
	for _ in 0..specials {
		let s = t.pick(&SPECIAL);
		let at = match t.u8() % 3 {
			0 => 0,
			1 => bytes.len(),
			_ => t.below(bytes.len() + 1),
		};
		bytes.splice(at..at, s.iter().copied());
	}
	bytes.truncate(191);
	let (input, why) = text_is(c, &bytes);
	Outcome::new(&input)
		.nontrivial(bytes.len() > 1)
		.tag(if specials > 0 { "special sequences" } else { "plain" })
		.verdict(why)
}

fn unit_part(e: &MRecord, a: &MRecord) -> Option<String> {
	if e.unit != a.unit {
		return Some(format!("unit: expected {:?}, got {:?}", e.unit, a.unit));
	}
	if e.vifes != a.vifes {
		return Some(format!("VIFEs: expected {:02X?}, got {:02X?}", e.vifes, a.vifes));
	}
	diff_data(&e.data, &a.data)
}

fn c15_units(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let vifes = t.below(4);
	let n = t.len(200);
	let mut text: Vec<u8> = (0..n).map(|_| t.u8() & 0x7F).collect();
	if n > 0 && t.chance(1, 4) {
		text[t.below(n)] = t.u8() | 0x80;
	}
	if t.chance(1, 8) {
		let s = t.pick(&SPECIAL);
		let at = t.below(n + 1);
		text.splice(at..at, s.iter().copied());
	}
	let mut body = vec![0x01, 0x7C | if vifes > 0 { 0x80 } else { 0 }];
	body.push(if t.chance(1, 10) {
		t.u8()
	} else {
		text.len() as u8
	});
	body.extend(&text);
	for k in 0..vifes {
		body.push(t.u8() & 0x7F | if k + 1 < vifes { 0x80 } else { 0 });
	}
	body.push(t.u8());
	body.extend(SENTINEL);
	if t.chance(1, 8) {
		let keep = t.below(body.len());
		body.truncate(keep);
	}
	body.truncate(ROOM);
	let mut o = body_outcome(c, &body, unit_part);
	o.nontrivial = n > 0;
	o
}

fn c15_unit_bytes(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let b = i as u8;
	let n = 1 + i / 256 % 8;
	let at = i / 2048 % 8;
	if at >= n {
		return Outcome::new(&[]).nontrivial(false);
	}
	let mut text: Vec<u8> = (0..n).map(|_| 0x20 + t.u8() % 0x5F).collect();
	text[at] = b;
	let mut body = vec![0x01, 0x7C, n as u8];
	body.extend(&text);
	body.push(t.u8());
	body.extend(SENTINEL);
	body_outcome(carrier(t), &body, unit_part)
}
