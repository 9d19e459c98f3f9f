//! C05 message kinds, C06 headers, C07 security, C08 manufacturers and products,
//! C19 error reports, C20 commands

use super::*;
use crate::engine::{Outcome, Plan, Sub};
use crate::tables::{self, Form, Kind};

/// Decode a payload (CI byte first) as part of a packet
fn decode_payload(payload: &[u8]) -> Obs<MMsg> {
	match obs::packet(&enc::long_frame(0x08, 0x01, payload)) {
		Obs::Ok(MPacket::Long(_, _, m)) => Obs::Ok(m),
		Obs::Ok(other) => Obs::Ok(MMsg::Other(format!("{other:?}"))),
		Obs::Rej(e) => Obs::Rej(e),
		Obs::Panic(p) => Obs::Panic(p),
	}
}

fn frame_of(payload: &[u8]) -> Vec<u8> {
	enc::long_frame(0x08, 0x01, payload)
}

fn header_of(m: &MMsg) -> Option<&MHeader> {
	use MMsg::*;
	match m {
		Reset(h) | Select(h, _) | SelectedRequest(h) | SelectedResponse(h, _) => Some(h),
		TimeAdjust(h, _) | TimeSync(h, _) | Alarm(h, _) | Error(h, _) => Some(h),
		Command(h, _) | Response(h, _) | Dlms(_, h, _) | Image(_, h, _) => Some(h),
		SecurityTransfer(_, h, _) | Specific(_, h, _) | Wireless(_, h) => Some(h),
		SelectDevice(_) | Baud(_) | Sync | Afl(_) | Manufacturer(..) | Other(_) => None,
	}
}

fn tail_of(m: &MMsg) -> Option<&MShort> {
	match header_of(m)? {
		MHeader::Short(s) => Some(s),
		MHeader::Long(l) => Some(&l.tail),
		_ => None,
	}
}

/// Judge a payload by the reference decoder, looking at one part of the message
fn judge_payload(payload: &[u8], part: fn(&MMsg, &MMsg) -> Option<String>) -> Option<String> {
	let expected = model::message(payload);
	let lenient = matches!(expected, Ok((_, true)));
	obs::judge(
		&expected,
		&decode_payload(payload),
		|(e, _), a| part(e, a),
		lenient,
	)
}

fn tag_payload(payload: &[u8]) -> &'static str {
	match model::message(payload) {
		Ok((_, false)) => "acceptable",
		Ok((_, true)) => "acceptable, surplus bytes",
		Err(Stop::Reject(_)) => "to be rejected",
		Err(Stop::Open(_)) => "not claimed",
	}
}

/// Every CI byte with a header
fn header_cis() -> &'static [u8] {
	static ALL: OnceLock<Vec<u8>> = OnceLock::new();
	ALL.get_or_init(|| tables::cis(|_, f| f != Form::None))
}

// ---------------------------------------------------------------------------
// C05

pub const C05: &[Sub] = &[
	Sub {
		name: "every CI",
		plan: Plan::Enumerate {
			count: 256 * 2000,
			tail: 500,
		},
		rule: "all 256 CI bytes, each with 2000 generated messages of the kind it announces, or, \
		       if it is reserved or not implemented, with 2000 generated contents (no, short or \
		       long header; records, bytes or nothing). Every case counts",
		run: c05_every,
	},
	Sub {
		name: "payloads of every length",
		plan: Plan::Enumerate {
			count: 256 * 253,
			tail: 300,
		},
		rule: "every CI whose body is passed through x every length that fits in a frame; \
		       non-trivial if the CI has such a body and the length fits",
		run: c05_payload,
	},
	Sub {
		name: "missing headers",
		plan: Plan::Enumerate {
			count: 256 * 13 * 8,
			tail: 40,
		},
		rule: "every CI with a header cut to every length: rejected unless complete; non-trivial \
		       if the CI has a header",
		run: c05_header,
	},
];

/// Kind, form of the header, and bytes passed through
fn shape(e: &MMsg, a: &MMsg) -> Option<String> {
	use MMsg::*;
	let form = |m: &MMsg| match header_of(m) {
		None => "none of its own",
		Some(MHeader::None) => "none",
		Some(MHeader::Short(_)) => "short",
		Some(MHeader::Long(_)) => "long",
		Some(MHeader::Other(_)) => "unknown",
	};
	if std::mem::discriminant(e) != std::mem::discriminant(a) {
		return Some(format!("message kind: expected {e:?}, got {a:?}"));
	}
	if form(e) != form(a) {
		return Some(format!("header: expected {}, got {}", form(e), form(a)));
	}
	let same = match (e, a) {
		(SelectDevice(x), SelectDevice(y)) | (Afl(x), Afl(y)) => x == y,
		(TimeAdjust(_, x), TimeAdjust(_, y))
		| (TimeSync(_, x), TimeSync(_, y))
		| (Alarm(_, x), Alarm(_, y))
		| (Command(_, x), Command(_, y)) => x == y,
		(Dlms(c, _, x), Dlms(d, _, y))
		| (Image(c, _, x), Image(d, _, y))
		| (SecurityTransfer(c, _, x), SecurityTransfer(d, _, y))
		| (Specific(c, _, x), Specific(d, _, y))
		| (Manufacturer(c, x), Manufacturer(d, y)) => c == d && x == y,
		(Wireless(c, _), Wireless(d, _)) => c == d,
		_ => true,
	};
	(!same).then(|| format!("contents: expected {e:?}, got {a:?}"))
}

fn c05_every(t: &mut Tape) -> Outcome {
	let ci = t.index() as u8;
	if tables::ci(ci).is_some() {
		let m = enc::message(t, ci);
		let d = frame_of(&m.bytes);
		let expected: Result<MMsg, Stop> = Ok(m.msg);
		return Outcome::new(&d).tag("implemented").verdict(obs::judge(
			&expected,
			&decode_payload(&m.bytes),
			shape,
			false,
		));
	}
	let form = t.pick(&[Form::None, Form::Short, Form::Long]);
	let mut payload = vec![ci];
	payload.extend(enc::header(t, form).0);
	let room = enc::MAX_PAYLOAD - payload.len();
	match t.u8() % 4 {
		0 => {}
		1 => {
			let n = t.len(room);
			payload.extend(t.data(n));
		}
		_ => payload.extend(enc::frame(t, room).bytes),
	}
	let d = frame_of(&payload);
	Outcome::new(&d)
		.tag("reserved or not implemented")
		.verdict(judge_payload(&payload, shape))
}

fn passed_through(k: Kind) -> bool {
	matches!(
		k,
		Kind::SelectDevice
			| Kind::TimeAdjust
			| Kind::TimeSync
			| Kind::Alarm
			| Kind::Command
			| Kind::Afl
			| Kind::Dlms
			| Kind::Image
			| Kind::Manufacturer
			| Kind::SecurityTransfer
			| Kind::Specific
	)
}

fn c05_payload(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (ci, n) = ((i % 256) as u8, i / 256);
	let Some((kind, form)) = tables::ci(ci) else {
		return Outcome::new(&[ci]).nontrivial(false);
	};
	let mut payload = vec![ci];
	payload.extend(enc::header(t, form).0);
	if !passed_through(kind) || payload.len() + n > enc::MAX_PAYLOAD {
		return Outcome::new(&[ci]).nontrivial(false);
	}
	payload.extend(t.data(n));
	Outcome::new(&frame_of(&payload)).verdict(judge_payload(&payload, shape))
}

fn c05_header(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (ci, n) = ((i % 256) as u8, i / 256 % 13);
	let Some((kind, form)) = tables::ci(ci) else {
		return Outcome::new(&[ci]).nontrivial(false);
	};
	let (h, _) = enc::header(t, form);
	if form == Form::None || n > h.len() || (kind == Kind::SelectedResponse && n == h.len()) {
		return Outcome::new(&[ci]).nontrivial(false);
	}
	let mut payload = vec![ci];
	payload.extend_from_slice(&h[..n]);
	Outcome::new(&frame_of(&payload))
		.tag(if n < h.len() { "cut" } else { "complete" })
		.verdict(judge_payload(&payload, shape))
}

// ---------------------------------------------------------------------------
// C06

pub const C06: &[Sub] = &[
	Sub {
		name: "generated headers",
		plan: Plan::Random {
			tape: 500,
			quick: 700_000,
			thorough: 30_000_000,
		},
		rule: "short and long headers with generated fields, under every CI that has one: every \
		       field must come back. Every case counts",
		run: c06_made,
	},
	Sub {
		name: "every value of every header byte",
		plan: Plan::Enumerate {
			count: 16 * 256 * 64,
			tail: 80,
		},
		rule: "each of the 12 bytes of a long and 4 of a short header set to each of 256 values in \
		       a generated header",
		run: c06_byte,
	},
	Sub {
		name: "identification nibbles",
		plan: Plan::Enumerate {
			count: 6 * 65536,
			tail: 24,
		},
		rule: "each pair of identification bytes x all 65536 values in a generated long header",
		run: c06_id,
	},
	Sub {
		name: "arbitrary header bytes",
		plan: Plan::Random {
			tape: 200,
			quick: 500_000,
			thorough: 20_000_000,
		},
		rule: "header bytes drawn at random with 0..=4 more or fewer than needed; non-trivial if \
		       the configuration field does not already lead to rejection",
		run: c06_any,
	},
];

fn header_part(e: &MMsg, a: &MMsg) -> Option<String> {
	match (header_of(e), header_of(a)) {
		(Some(x), Some(y)) => {
			// product names are C08's business
			let mut x = x.clone();
			if let MHeader::Long(l) = &mut x {
				l.product = None;
			}
			diff_header(&x, y)
		}
		(None, None) => None,
		_ => Some(format!("message: expected {e:?}, got {a:?}")),
	}
}

fn header_ci(t: &mut Tape) -> u8 {
	if t.bool() {
		t.pick(&[0x72, 0x7A, 0x6C, 0x5A])
	} else {
		t.pick(header_cis())
	}
}

fn c06_made(t: &mut Tape) -> Outcome {
	let ci = header_ci(t);
	let m = enc::message(t, ci);
	let expected: Result<MMsg, Stop> = Ok(m.msg);
	let why = obs::judge(
		&expected,
		&decode_payload(&m.bytes),
		header_part,
		false,
	);
	Outcome::new(&frame_of(&m.bytes))
		.tag(match tables::ci(ci) {
			Some((_, Form::Long)) => "long header",
			_ => "short header",
		})
		.verdict(why)
}

/// A CI with a body that cannot itself be wrong
fn plain_ci(t: &mut Tape, long: bool) -> u8 {
	if long {
		t.pick(&[0x72, 0x5B, 0x6C, 0x6D, 0x75, 0xC3, 0x53])
	} else {
		t.pick(&[0x7A, 0x5A, 0x74, 0xC4, 0x9E, 0x61])
	}
}

fn c06_byte(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let (at, v) = (i % 16, (i / 16) as u8);
	let long = at < 12;
	let ci = plain_ci(t, long);
	let mut payload = vec![ci];
	payload.extend(enc::header(t, if long { Form::Long } else { Form::Short }).0);
	payload[1 + if long { at } else { at - 12 }] = v;
	Outcome::new(&frame_of(&payload))
		.tag(tag_payload(&payload))
		.verdict(judge_payload(&payload, header_part))
}

fn c06_id(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (a, b) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][(i >> 16) as usize % 6];
	let ci = plain_ci(t, true);
	let mut payload = vec![ci];
	payload.extend(enc::header(t, Form::Long).0);
	payload[1 + a] = i as u8;
	payload[1 + b] = (i >> 8) as u8;
	Outcome::new(&frame_of(&payload))
		.tag(tag_payload(&payload))
		.verdict(judge_payload(&payload, header_part))
}

fn c06_any(t: &mut Tape) -> Outcome {
	let long = t.bool();
	let ci = plain_ci(t, long);
	let mut payload = vec![ci];
	let mut h = t.bytes(if long { 12 } else { 4 });
	let n = h.len();
	if t.chance(7, 8) {
		h[n - 1] = if t.bool() { 0 } else { h[n - 1] | 0x10 };
		if h[n - 1] == 0 {
			h[n - 2] = 0;
		}
	}
	if long && t.bool() {
		for b in &mut h[..4] {
			*b = (*b / 16 % 10) * 16 + *b % 16 % 10;
		}
	}
	if long && t.bool() {
		h[5] &= 0x7F;
	}
	match t.u8() % 8 {
		0 => {
			let k = t.range(1, 4);
			h.truncate(n - k);
		}
		1 if ci != 0x72 && ci != 0x7A && ci != 0x53 => {
			let k = t.range(1, 4);
			h.extend(t.bytes(k));
		}
		_ => {}
	}
	payload.extend(&h);
	let m = model::message(&payload);
	let dull = matches!(m, Err(Stop::Reject(r)) if r.starts_with("security"));
	Outcome::new(&frame_of(&payload))
		.nontrivial(!dull)
		.tag(tag_payload(&payload))
		.verdict(judge_payload(&payload, header_part))
}

// ---------------------------------------------------------------------------
// C07

pub const C07: &[Sub] = &[
	Sub {
		name: "every configuration field under every CI",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 24,
		},
		rule: "all 65536 configuration fields, each under all CI bytes that carry a header (one \
		       block per field), with the message otherwise well-formed. Every case counts",
		run: c07_all,
	},
	Sub {
		name: "fields in generated messages",
		plan: Plan::Random {
			tape: 600,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "a generated message whose configuration field is replaced; non-trivial if the new \
		       field is not zero",
		run: c07_made,
	},
];

fn security_part(e: &MMsg, a: &MMsg) -> Option<String> {
	match (tail_of(e), tail_of(a)) {
		(Some(x), Some(y)) if x.security == y.security => None,
		(Some(x), Some(y)) => Some(format!(
			"configuration field: expected {:?}, got {:?}",
			x.security, y.security
		)),
		(x, y) => Some(format!("header: expected {x:?}, got {y:?}")),
	}
}

fn mode_tag(hi: u8, lo: u8) -> &'static str {
	match hi & 0x1F {
		0 if hi == 0 && lo == 0 => "no security",
		0 => "mode 0 with flags",
		6 | 11 | 12 | 14 | 16.. => "reserved mode",
		_ => "encrypted mode",
	}
}

fn c07_all(t: &mut Tape) -> Outcome {
	let cfg = t.index() as u16;
	let [lo, hi] = cfg.to_le_bytes();
	let id = t.bytes(2);
	let mut n = 0;
	for ci in header_cis() {
		let (kind, form) = tables::ci(*ci).unwrap();
		let mut payload = vec![*ci];
		if form == Form::Long {
			payload.extend([0x78, 0x56, 0x34, 0x12, 0x24, 0x40, id[0], 0x07]);
		}
		payload.extend([id[1], 0x00, lo, hi]);
		match kind {
			Kind::SelectedResponse => payload.push(0x10),
			Kind::Response => payload.extend(SENTINEL),
			_ => {}
		}
		n += 1;
		if let Some(why) = judge_payload(&payload, security_part) {
			return Outcome::new(&frame_of(&payload))
				.fail(format!("CI {ci:02X}, configuration field {cfg:04X}: {why}"));
		}
	}
	Outcome::block(&cfg.to_be_bytes(), n).tag(mode_tag(hi, lo))
}

fn c07_made(t: &mut Tape) -> Outcome {
	let lo = if t.bool() { 0 } else { t.u8() };
	let hi = t.u8();
	let ci = header_ci(t);
	let m = enc::message(t, ci);
	let mut payload = m.bytes;
	payload[m.body - 2] = lo;
	payload[m.body - 1] = hi;
	Outcome::new(&frame_of(&payload))
		.nontrivial(lo != 0 || hi != 0)
		.tag(mode_tag(hi, lo))
		.verdict(judge_payload(&payload, security_part))
}

// ---------------------------------------------------------------------------
// C08

pub const C08: &[Sub] = &[
	Sub {
		name: "every manufacturer code",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 16,
		},
		rule: "all 65536 manufacturer codes in a long header with generated version and device \
		       type. Every case counts",
		run: c08_codes,
	},
	Sub {
		name: "every version and device type",
		plan: Plan::Enumerate {
			count: 36 * 256,
			tail: 8,
		},
		rule: "each manufacturer with products (and five without) x all 256 versions x all 256 \
		       device types (one block each), with the identification's last byte equal to the \
		       version where that is possible. Every case counts",
		run: c08_products,
	},
	Sub {
		name: "identification instead of version",
		plan: Plan::Enumerate {
			count: 40 * 100,
			tail: 8,
		},
		rule: "each manufacturer with products x all 100 last bytes of the identification x all \
		       256 versions (one block each)",
		run: c08_ids,
	},
	Sub {
		name: "generated meters",
		plan: Plan::Random {
			tape: 64,
			quick: 300_000,
			thorough: 10_000_000,
		},
		rule: "headers at and next to the entries of the product table; non-trivial if the \
		       manufacturer has products",
		run: c08_made,
	},
];

fn meter_part(e: &MMsg, a: &MMsg) -> Option<String> {
	match (header_of(e), header_of(a)) {
		(Some(MHeader::Long(x)), Some(MHeader::Long(y))) => {
			if x.manufacturer != y.manufacturer {
				Some(format!(
					"manufacturer: expected {}, got {}",
					x.manufacturer, y.manufacturer
				))
			} else if x.product.is_some() && x.product != y.product {
				Some(format!(
					"product: expected {:?}, got {:?}",
					x.product.as_ref().unwrap(),
					y.product
				))
			} else {
				None
			}
		}
		(x, y) => Some(format!("header: expected {x:?}, got {y:?}")),
	}
}

fn meter(id: [u8; 4], code: u16, version: u8, device: u8) -> Vec<u8> {
	let mut p = vec![0x72];
	p.extend(id);
	p.extend(code.to_le_bytes());
	p.extend([version, device, 0x01, 0x00, 0x00, 0x00]);
	p
}

fn digits(t: &mut Tape) -> u8 {
	let v = t.below(100) as u8;
	v / 10 * 16 + v % 10
}

fn c08_codes(t: &mut Tape) -> Outcome {
	let code = t.index() as u16;
	let id = [digits(t), digits(t), digits(t), digits(t)];
	let p = meter(id, code, t.u8(), t.u8());
	Outcome::new(&frame_of(&p))
		.tag(if tables::unpack_manufacturer(code).is_some() {
			"letters"
		} else {
			"no letters"
		})
		.verdict(judge_payload(&p, meter_part))
}

fn listed(n: usize) -> &'static str {
	let all = tables::manufacturers();
	if n < all.len() {
		all[n]
	} else {
		["AAA", "ZZZ", "ABA", "KAL", "ITU", "DME", "LGB", "QDS"][(n - all.len()) % 8]
	}
}

fn c08_products(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let version = i as u8;
	let m = listed(i / 256);
	let code = tables::pack_manufacturer(m);
	let top = if version / 16 < 10 && version % 16 < 10 { version } else { digits(t) };
	let id = [digits(t), digits(t), digits(t), top];
	let mut found = "no product";
	for device in 0..=255 {
		let p = meter(id, code, version, device);
		if tables::product(m, top, version, device).is_some() {
			found = "listed for some type";
		}
		if let Some(why) = judge_payload(&p, meter_part) {
			return Outcome::new(&frame_of(&p)).fail(format!(
				"{m} version {version:02X} type {device:02X}: {why}"
			));
		}
	}
	Outcome::block(&[m.as_bytes(), &[version]].concat(), 256).tag(found)
}

fn c08_ids(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let top = (i % 100 / 10 * 16 + i % 10) as u8;
	let m = listed(i / 100);
	let code = tables::pack_manufacturer(m);
	let device = if t.bool() { t.pick(&[2, 3, 4, 6, 7, 8]) } else { t.u8() };
	let id = [digits(t), digits(t), digits(t), top];
	for version in 0..=255 {
		let p = meter(id, code, version, device);
		if let Some(why) = judge_payload(&p, meter_part) {
			return Outcome::new(&frame_of(&p)).fail(format!(
				"{m} identification {top:02X}...... version {version:02X} type {device:02X}: {why}"
			));
		}
	}
	Outcome::block(&[m.as_bytes(), &[top]].concat(), 256)
}

fn c08_made(t: &mut Tape) -> Outcome {
	let (h, m) = enc::long_fields(t);
	let mut p = vec![0x72];
	p.extend(h);
	let expected: Result<MMsg, Stop> = Ok(MMsg::Response(
		MHeader::Long(m.clone()),
		MFrame {
			records: Vec::new(),
			more: false,
			manufacturer: Vec::new(),
		},
	));
	let known = tables::manufacturers().contains(&m.manufacturer.as_str());
	Outcome::new(&frame_of(&p))
		.nontrivial(known)
		.tag(match m.product {
			Some(Some(_)) => "listed",
			_ => "not listed",
		})
		.verdict(obs::judge(
			&expected,
			&decode_payload(&p),
			meter_part,
			false,
		))
}

// ---------------------------------------------------------------------------
// C19

const ERROR_CIS: [u8; 3] = [0x70, 0x6E, 0x6F];

pub const C19: &[Sub] = &[
	Sub {
		name: "every code, header form and trailer",
		plan: Plan::Enumerate {
			count: 256 * 3 * 500,
			tail: 400,
		},
		rule: "all 256 error codes x three header forms x 500 generated trailers (none, arbitrary \
		       bytes, a record). Every case counts",
		run: c19_all,
	},
	Sub {
		name: "generated reports",
		plan: Plan::Random {
			tape: 600,
			quick: 400_000,
			thorough: 15_000_000,
		},
		rule: "encoded error reports of every kind, empty ones included; the report must come back",
		run: c19_made,
	},
];

fn error_part(e: &MMsg, a: &MMsg) -> Option<String> {
	match (e, a) {
		(MMsg::Error(_, MErr::Dynamic(x)), MMsg::Error(_, MErr::Dynamic(y))) => diff_record(x, y),
		(MMsg::Error(_, x), MMsg::Error(_, y)) if x == y => None,
		(MMsg::Error(_, x), MMsg::Error(_, y)) => Some(format!("error: expected {x:?}, got {y:?}")),
		_ => Some(format!("message: expected {e:?}, got {a:?}")),
	}
}

fn with_header(t: &mut Tape, ci: u8) -> Vec<u8> {
	let (_, form) = tables::ci(ci).expect("implemented");
	let mut p = vec![ci];
	p.extend(enc::header(t, form).0);
	p
}

fn c19_all(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let code = i as u8;
	let ci = ERROR_CIS[i / 256 % 3];
	let mut p = with_header(t, ci);
	p.push(code);
	let room = enc::MAX_PAYLOAD - p.len();
	let trailer = match t.u8() % 4 {
		0 => Vec::new(),
		1 => {
			let n = t.len(room);
			t.data(n)
		}
		2 => {
			let mut r = enc::record(t, room).bytes;
			if t.chance(1, 4) {
				let keep = t.below(r.len());
				r.truncate(keep);
			}
			r
		}
		_ => {
			let n = t.len(3);
			let mut r = enc::record(t, room - n).bytes;
			r.extend(t.bytes(n.min(room - r.len())));
			r
		}
	};
	p.extend(trailer);
	Outcome::new(&frame_of(&p))
		.tag(match code {
			0xF0 => "dynamic",
			0xF1.. => "manufacturer specific",
			c if tables::application_error(c).is_some() => "defined",
			_ => "reserved",
		})
		.tag(tag_payload(&p))
		.verdict(judge_payload(&p, error_part))
}

fn c19_made(t: &mut Tape) -> Outcome {
	let ci = t.pick(&ERROR_CIS);
	let m = enc::message(t, ci);
	let expected: Result<MMsg, Stop> = Ok(m.msg);
	Outcome::new(&frame_of(&m.bytes)).verdict(obs::judge(
		&expected,
		&decode_payload(&m.bytes),
		error_part,
		false,
	))
}

// ---------------------------------------------------------------------------
// C20

const COMMANDS: [u8; 17] = [
	0x50, 0x53, 0x54, 0x55, 0x66, 0x67, 0x68, 0x5C, 0xB8, 0xB9, 0xBA, 0xBB, 0xBC, 0xBD, 0xBE, 0xBF,
	0x52,
];

pub const C20: &[Sub] = &[
	Sub {
		name: "every command and one-byte parameter",
		plan: Plan::Enumerate {
			count: 17 * 257 * 50,
			tail: 40,
		},
		rule: "each of the 17 command CI bytes, without and with each one-byte parameter, with 50 \
		       generated headers; non-trivial unless a parameter follows a command that has none",
		run: c20_one,
	},
	Sub {
		name: "longer parameters",
		plan: Plan::Random {
			tape: 80,
			quick: 400_000,
			thorough: 15_000_000,
		},
		rule: "application selections and reports with 2..=10 byte parameters: the block number, \
		       where accepted, is the concatenation of the low nibbles",
		run: c20_long,
	},
	Sub {
		name: "two-byte parameters",
		plan: Plan::Enumerate {
			count: 65536 * 3,
			tail: 0,
		},
		rule: "all two-byte parameters in a selection, a report, and a report with a short header",
		run: c20_two,
	},
];

fn command_part(e: &MMsg, a: &MMsg) -> Option<String> {
	// the header is C06's business
	use MMsg::*;
	let none = MHeader::None;
	match (e, a) {
		(Select(_, x), Select(_, y)) => diff_msg(&Select(none.clone(), x.clone()), &Select(none, y.clone())),
		(SelectedResponse(_, x), SelectedResponse(_, y)) => diff_msg(
			&SelectedResponse(none.clone(), x.clone()),
			&SelectedResponse(none, y.clone()),
		),
		(Reset(_), Reset(_)) | (SelectedRequest(_), SelectedRequest(_)) => None,
		_ => diff_msg(e, a),
	}
}

fn c20_one(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let ci = COMMANDS[i % 17];
	let param = i / 17 % 257;
	let mut p = with_header(t, ci);
	if param < 256 {
		p.push(param as u8);
	}
	let tag = tag_payload(&p);
	Outcome::new(&frame_of(&p))
		.nontrivial(tag != "acceptable, surplus bytes")
		.tag(tag)
		.verdict(judge_payload(&p, command_part))
}

fn c20_long(t: &mut Tape) -> Outcome {
	let ci = t.pick(&[0x50, 0x53, 0x66, 0x67, 0x68]);
	let n = t.range(2, 10);
	let mut p = with_header(t, ci);
	if t.bool() {
		// one application throughout, as a sender would do it
		let a = t.u8() & 0xF0;
		for _ in 0..n {
			p.push(a | (t.u8() & 0x0F));
		}
	} else {
		p.extend(t.bytes(n));
	}
	let accepted = matches!(decode_payload(&p), Obs::Ok(_));
	Outcome::new(&frame_of(&p))
		.nontrivial(accepted)
		.tag(if accepted { "accepted" } else { "rejected" })
		.verdict(judge_payload(&p, command_part))
}

fn c20_two(t: &mut Tape) -> Outcome {
	let i = t.index();
	let mut p: Vec<u8> = match i >> 16 {
		0 => vec![0x50],
		1 => vec![0x66],
		_ => vec![0x67, 0x01, 0x00, 0x00, 0x00],
	};
	p.extend((i as u16).to_le_bytes());
	let accepted = matches!(decode_payload(&p), Obs::Ok(_));
	Outcome::new(&frame_of(&p))
		.nontrivial(accepted)
		.tag(if accepted { "accepted" } else { "rejected" })
		.verdict(judge_payload(&p, command_part))
}
