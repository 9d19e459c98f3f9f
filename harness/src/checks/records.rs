//! C09 frames, C10 data information, C11 value information, C18 data by both

use super::*;
use crate::engine::{hex, Outcome, Plan, Sub};
use crate::enc::{EDib, EUnit};
use crate::tables::{self, Table};

// ---------------------------------------------------------------------------
// C09

pub const C09: &[Sub] = &[
	Sub {
		name: "sequences",
		plan: Plan::Random {
			tape: 700,
			quick: 250_000,
			thorough: 10_000_000,
		},
		rule: "an encoded body of 0 to about 60 records with and without fillers and a marker: each \
		       record as it is decoded alone, in order, nothing else; non-trivial with two or more \
		       records",
		run: c09_sequence,
	},
	Sub {
		name: "fillers",
		plan: Plan::Random {
			tape: 700,
			quick: 150_000,
			thorough: 6_000_000,
		},
		rule: "the same records with no fillers and with fillers at generated places; non-trivial \
		       if there is at least one record and one filler",
		run: c09_fillers,
	},
	Sub {
		name: "markers",
		plan: Plan::Random {
			tape: 700,
			quick: 150_000,
			thorough: 6_000_000,
		},
		rule: "the same records without a marker, after 0F and after 1F, followed by arbitrary \
		       bytes (markers, fillers and records among them); non-trivial if there is a record \
		       and bytes after the marker",
		run: c09_markers,
	},
	Sub {
		name: "cuts",
		plan: Plan::Random {
			tape: 700,
			quick: 40_000,
			thorough: 2_000_000,
		},
		rule: "an encoded body without a marker cut at every point: rejected inside a record, \
		       exactly the records so far between records",
		run: c09_cuts,
	},
	Sub {
		name: "order",
		plan: Plan::Random {
			tape: 400,
			quick: 150_000,
			thorough: 6_000_000,
		},
		rule: "two to six small records in two orders; non-trivial if they differ",
		run: c09_order,
	},
	Sub {
		name: "very many records",
		plan: Plan::Random {
			tape: 64,
			quick: 4_000,
			thorough: 100_000,
		},
		rule: "bodies near the size limit made of 60 to 240 of the smallest records (two to four \
		       bytes) and fillers",
		run: c09_many,
	},
];

fn alone(carrier: &[u8], bytes: &[u8]) -> Result<MRecord, String> {
	match decode_body(carrier, bytes) {
		Obs::Ok(f) if f.records.len() == 1 && f.manufacturer.is_empty() && !f.more => {
			Ok(f.records.into_iter().next().unwrap())
		}
		Obs::Ok(f) => Err(format!("record {} alone decodes as {f:?}", hex(bytes))),
		Obs::Rej(e) => Err(format!(
			"record {} alone is rejected: {}",
			hex(bytes),
			e.trim().replace('\n', " / ")
		)),
		Obs::Panic(p) => Err(format!("record {} alone panics: {p}", hex(bytes))),
	}
}

fn expect_frame(carrier: &[u8], body: &[u8], want: &MFrame) -> Option<String> {
	let expected: Result<MFrame, Stop> = Ok(want.clone());
	obs::judge(&expected, &decode_body(carrier, body), diff_frame, false)
}

fn c09_sequence(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let f = enc::frame(t, ROOM);
	let o = Outcome::new(&response(c, &f.bytes))
		.nontrivial(f.spans.len() > 1)
		.tag(match f.spans.len() {
			0 => "no record",
			1 => "one record",
			2..=5 => "2-5 records",
			6..=15 => "6-15 records",
			_ => "16 or more records",
		});
	let mut want = MFrame {
		records: Vec::new(),
		more: f.frame.more,
		manufacturer: f.frame.manufacturer.clone(),
	};
	for (a, b) in &f.spans {
		match alone(c, &f.bytes[*a..*b]) {
			Ok(r) => want.records.push(r),
			Err(e) => return o.fail(e),
		}
	}
	o.verdict(expect_frame(c, &f.bytes, &want))
}

/// Encoded records, each by itself, that fit together
fn some_records(t: &mut Tape, room: usize, max: usize) -> Vec<Vec<u8>> {
	let n = t.below(max + 1);
	let mut left = room;
	let mut out = Vec::new();
	for _ in 0..n {
		if left < 3 {
			break;
		}
		let r = enc::record(t, left.min(60)).bytes;
		left -= r.len();
		out.push(r);
	}
	out
}

fn c09_fillers(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let places = t.bytes(12);
	let marker = t.u8();
	let rs = some_records(t, 150, 11);
	let mut plain = rs.concat();
	let mut filled = Vec::new();
	let mut fillers = 0;
	for (i, r) in rs.iter().enumerate() {
		let n = usize::from(match places[i] % 8 {
			0..=3 => 0,
			4 => 1,
			5 => 2,
			6 => 3,
			_ => places[i] / 16,
		});
		fillers += n;
		filled.extend(vec![0x2F; n]);
		filled.extend_from_slice(r);
	}
	let n = usize::from(places[11] % 4);
	fillers += n;
	filled.extend(vec![0x2F; n]);
	if marker % 4 == 0 {
		let end = [if marker & 4 == 0 { 0x0F } else { 0x1F }, 0x2F, marker];
		plain.extend(end);
		filled.extend(end);
	}
	let o = Outcome::new(&response(c, &filled)).nontrivial(fillers > 0 && !rs.is_empty());
	if filled.len() > ROOM {
		return o.nontrivial(false);
	}
	match decode_body(c, &plain) {
		Obs::Ok(want) if want.records.len() == rs.len() => {
			o.verdict(expect_frame(c, &filled, &want))
		}
		Obs::Ok(f) => o.fail(format!(
			"{} records gave {}: {}",
			rs.len(),
			f.records.len(),
			hex(&plain)
		)),
		other => o.fail(format!("records without fillers {}: {}", other.describe(), hex(&plain))),
	}
}

fn c09_markers(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let more = t.bool();
	let after = match t.u8() % 4 {
		0 => {
			let n = t.len(60);
			t.bytes(n)
		}
		1 => {
			let n = t.len(8);
			(0..n).map(|_| t.pick(&[0x0F, 0x1F, 0x2F, 0x00])).collect()
		}
		2 => enc::frame(t, 60).bytes,
		_ => vec![t.u8()],
	};
	let rs = some_records(t, 150, 6);
	let plain = rs.concat();
	let mut body = plain.clone();
	body.push(if more { 0x1F } else { 0x0F });
	body.extend_from_slice(&after);
	let o = Outcome::new(&response(c, &body))
		.nontrivial(!rs.is_empty() && !after.is_empty())
		.tag(if more { "more follows" } else { "end" });
	match decode_body(c, &plain) {
		Obs::Ok(want) => {
			if want.more || !want.manufacturer.is_empty() || want.records.len() != rs.len() {
				return o.fail(format!("without a marker {} gives {want:?}", hex(&plain)));
			}
			let want = MFrame {
				more,
				manufacturer: after,
				..want
			};
			o.verdict(expect_frame(c, &body, &want))
		}
		other => o.fail(format!("records without a marker {}: {}", other.describe(), hex(&plain))),
	}
}

fn c09_cuts(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let fillers = t.u8();
	let rs = some_records(t, 100, 6);
	let mut body = Vec::new();
	let mut inside = vec![];
	let mut whole = vec![];
	for (i, r) in rs.iter().enumerate() {
		if fillers >> i & 1 == 1 {
			body.push(0x2F);
			inside.push(false);
			whole.push(i);
		}
		for k in 0..r.len() {
			inside.push(k > 0);
			whole.push(i);
		}
		body.extend_from_slice(r);
	}
	let full = match decode_body(c, &body) {
		Obs::Ok(f) if f.records.len() == rs.len() => f,
		other => {
			return Outcome::new(&response(c, &body))
				.fail(format!("the whole body is {} or short of records", other.describe()))
		}
	};
	for k in 0..body.len() {
		let part = &body[..k];
		let why = if inside[k] {
			match decode_body(c, part) {
				Obs::Rej(_) => None,
				Obs::Panic(p) => Some(format!("panicked: {p}")),
				Obs::Ok(f) => Some(format!("cut inside a record, but accepted as {f:?}")),
			}
		} else {
			let want = MFrame {
				records: full.records[..whole[k]].to_vec(),
				more: false,
				manufacturer: Vec::new(),
			};
			expect_frame(c, part, &want)
		};
		if let Some(w) = why {
			return Outcome::new(&response(c, part)).fail(w);
		}
	}
	let n = body.len() as u64;
	let mut o = Outcome::block(&response(c, &body), n.max(1));
	o.nontrivial = n > 0;
	o
}

fn c09_order(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let turn = t.u8() as usize;
	let swap = (t.u8() as usize, t.u8() as usize);
	let rs = some_records(t, 200, 6);
	let n = rs.len();
	if n < 2 {
		return Outcome::new(&[]).nontrivial(false);
	}
	let mut order: Vec<usize> = (0..n).collect();
	order.rotate_left(turn % n);
	order.swap(swap.0 % n, swap.1 % n);
	let one = rs.concat();
	let two: Vec<u8> = order.iter().flat_map(|i| rs[*i].clone()).collect();
	let o = Outcome::new(&response(c, &two)).nontrivial(one != two);
	match decode_body(c, &one) {
		Obs::Ok(f) if f.records.len() == n => {
			let want = MFrame {
				records: order.iter().map(|i| f.records[*i].clone()).collect(),
				more: false,
				manufacturer: Vec::new(),
			};
			o.verdict(expect_frame(c, &two, &want))
		}
		other => o.fail(format!("the records in order are {}: {}", other.describe(), hex(&one))),
	}
}

fn c09_many(t: &mut Tape) -> Outcome {
	let c = CARRIERS[0];
	let room = enc::MAX_PAYLOAD - 1;
	let kind = t.u8() % 4;
	let mut body = Vec::new();
	let mut want = Vec::new();
	let mut fill = 0usize;
	loop {
		let k = match kind {
			3 => t.u8() % 3,
			k => k,
		};
		let v = t.u8();
		let r = match k {
			0 => vec![0x00, 0x78],
			1 => vec![0x01, 0x78, v],
			_ => vec![0x0D, 0x78, 0xE1, v],
		};
		if body.len() + r.len() > room {
			break;
		}
		body.extend_from_slice(&r);
		want.push(match k {
			0 => MData::None,
			_ => MData::Signed(i64::from(v as i8)),
		});
		if t.chance(1, 20) && body.len() < room {
			body.push(0x2F);
			fill += 1;
		}
	}
	let o = Outcome::new(&response(c, &body)).tag(if fill > 0 { "fillers" } else { "no fillers" });
	match decode_body(c, &body) {
		Obs::Ok(f) => {
			let got: Vec<MData> = f.records.iter().map(|r| r.data.clone()).collect();
			if got == want {
				o
			} else {
				o.fail(format!("{} records expected, got {}", want.len(), got.len()))
			}
		}
		Obs::Rej(e) => o.fail(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Panic(p) => o.fail(format!("panicked: {p}")),
	}
}

// ---------------------------------------------------------------------------
// C10

pub const C10: &[Sub] = &[
	Sub {
		name: "every DIF with chains",
		plan: Plan::Enumerate {
			count: 256 * 3000,
			tail: 200,
		},
		rule: "all 256 DIF bytes x 3000 chains of 0..=12 generated DIFE bytes, with data to match \
		       and another record after it; non-trivial if the data field is not reserved",
		run: c10_every,
	},
	Sub {
		name: "single bits",
		plan: Plan::Enumerate {
			count: 14 * 2 * 12 * 12 * 8,
			tail: 16,
		},
		rule: "one DIFE bit set in chains of every length 1..=12 at every position, for every data \
		       field and both values of DIF bit 6",
		run: c10_bits,
	},
	Sub {
		name: "all pairs of DIFEs",
		plan: Plan::Enumerate {
			count: 8 * 128 * 128,
			tail: 8,
		},
		rule: "all two-DIFE chains under eight DIFs (four functions, two storage bits)",
		run: c10_pairs,
	},
	Sub {
		name: "encoded numbers",
		plan: Plan::Random {
			tape: 120,
			quick: 300_000,
			thorough: 15_000_000,
		},
		rule: "storage, tariff and subunit numbers up to 41, 20 and 10 bits written as a chain: the \
		       numbers must come back; non-trivial with at least one DIFE",
		run: c10_made,
	},
	Sub {
		name: "OBIS marker changes nothing",
		plan: Plan::Random {
			tape: 120,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "a record with a chain of up to nine DIFEs, with and without a final zero DIFE",
		run: c10_obis,
	},
];

fn dib_part(e: &MRecord, a: &MRecord) -> Option<String> {
	let mut e = e.clone();
	e.unit = a.unit.clone();
	e.vifes = a.vifes.clone();
	e.data = a.data.clone();
	diff_record(&e, a)
}

fn dib_name_part(e: &MRecord, a: &MRecord) -> Option<String> {
	dib_part(e, a)
}

/// DIF and DIFEs, then a dimensionless quantity and plain data of the right size
fn with_plain_data(t: &mut Tape, dib: &[u8]) -> Vec<u8> {
	let mut b = dib.to_vec();
	b.extend([0xFD, 0x3A]);
	match model::width(dib[0] & 0x0F) {
		Some(n) => b.extend((0..n).map(|_| t.u8() % 10)),
		None => {
			let n = t.below(6);
			b.push(0xE0 + n as u8);
			b.extend(t.bytes(n));
		}
	}
	b
}

fn chain_bytes(dif: u8, difes: &[u8]) -> Vec<u8> {
	let mut out = vec![dif];
	out.extend_from_slice(difes);
	let n = out.len();
	for (i, b) in out.iter_mut().enumerate() {
		*b = *b & 0x7F | if i + 1 < n { 0x80 } else { 0 };
	}
	out
}

fn dib_outcome(t: &mut Tape, dib: &[u8]) -> Outcome {
	let c = carrier(t);
	let mut body = with_plain_data(t, dib);
	body.extend(SENTINEL);
	body_outcome(c, &body, dib_name_part)
}

fn c10_every(t: &mut Tape) -> Outcome {
	let dif = t.index() as u8;
	let n = if dif & 0x80 == 0 {
		0
	} else {
		match t.u8() % 4 {
			0 => t.range(1, 3),
			1 => t.range(9, 12),
			_ => t.range(1, 12),
		}
	};
	if dif == 0x2F || dif & 0x8F == 0x0F {
		// filler, markers and reserved special functions
		if matches!(dif, 0x0F | 0x1F | 0x2F) {
			return Outcome::new(&[dif]).nontrivial(false);
		}
	}
	let mut dib = vec![dif];
	for k in 0..n {
		let b = t.edge_u8();
		dib.push(b & 0x7F | if k + 1 < n { 0x80 } else { 0 });
	}
	let mut o = dib_outcome(t, &dib);
	o.nontrivial = dif & 0x07 != 0 || dif & 0x0F == 0;
	o.tag(match n {
		0 => "no DIFE",
		1..=3 => "1-3 DIFEs",
		4..=10 => "4-10 DIFEs",
		_ => "more than 10 DIFEs",
	})
}

fn c10_bits(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let code = enc::CODES[i % 14];
	let bit6 = if i / 14 % 2 == 1 { 0x40 } else { 0 };
	let len = 1 + i / 28 % 12;
	let at = i / (28 * 12) % 12;
	let bit = i / (28 * 144);
	if at >= len {
		return Outcome::new(&[]).nontrivial(false);
	}
	let mut difes = vec![0; len];
	if bit < 7 {
		difes[at] = 1 << bit;
	} else {
		difes[at] = 0x7F;
	}
	let dib = chain_bytes(code | bit6, &difes);
	dib_outcome(t, &dib)
}

fn c10_pairs(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let dif = 0x01 | ((i % 8) as u8) << 4;
	let dib = chain_bytes(dif, &[(i / 8 % 128) as u8, (i / 1024) as u8]);
	dib_outcome(t, &dib)
}

fn c10_made(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let code = t.pick(&enc::CODES);
	let d = enc::dib(t, code);
	let mut body = with_plain_data(t, &d.bytes);
	body.extend(SENTINEL);
	let o = Outcome::new(&response(c, &body))
		.nontrivial(d.bytes.len() > 1)
		.tag(if d.obis { "obis" } else { "plain" });
	let got = match decode_body(c, &body) {
		Obs::Ok(f) => f,
		Obs::Rej(e) => return o.fail(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Panic(p) => return o.fail(format!("panicked: {p}")),
	};
	let Some(r) = got.records.first() else {
		return o.fail("no record");
	};
	let want = MRecord {
		raw: model::raw_name(code).into(),
		function: model::FUNCTIONS[usize::from(d.function)].into(),
		storage: d.storage,
		tariff: d.tariff,
		device: d.device,
		obis: d.obis,
		unit: r.unit.clone(),
		vifes: r.vifes.clone(),
		data: r.data.clone(),
	};
	o.verdict(diff_record(&want, r).or_else(|| {
		(got.records.len() != 2).then(|| format!("{} records instead of 2", got.records.len()))
	}))
}

fn c10_obis(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let dif = t.u8();
	let n = t.below(10);
	let mut difes = t.bytes(n);
	if n > 0 && difes[n - 1] & 0x7F == 0 {
		difes[n - 1] = 1;
	}
	let code = enc::CODES[usize::from(dif) % 14];
	let dif = code | dif & 0x70;
	let rest = {
		let mut with = with_plain_data(t, &[dif]);
		with.remove(0);
		with
	};
	let body = |difes: &[u8]| {
		let mut b = chain_bytes(dif, difes);
		b.extend_from_slice(&rest);
		b.extend(SENTINEL);
		b
	};
	let one = body(&difes);
	difes.push(0);
	let two = body(&difes);
	let o = Outcome::new(&response(c, &two));
	match (decode_body(c, &one), decode_body(c, &two)) {
		(Obs::Ok(f), Obs::Ok(g)) => {
			let mut want = f;
			if let Some(r) = want.records.first_mut() {
				if r.obis {
					return o.fail("OBIS register reported without the marker");
				}
				r.obis = true;
			}
			o.verdict(diff_frame(&want, &g))
		}
		(x, y) => o.fail(format!(
			"{} without the marker, {} with it",
			x.describe(),
			y.describe()
		)),
	}
}

// ---------------------------------------------------------------------------
// C11

pub const C11: &[Sub] = &[
	Sub {
		name: "every code of every table",
		plan: Plan::Enumerate {
			count: 4 * 128 * 14 * 12,
			tail: 48,
		},
		rule: "all 128 codes of the four tables x all 14 data fields x 12 chains of 0..=8 further \
		       VIFEs, with data to match and another record after it. Every case counts",
		run: c11_codes,
	},
	Sub {
		name: "every three bytes of value information",
		plan: Plan::Enumerate {
			count: 65536,
			tail: 40,
		},
		rule: "all 2^24 combinations of three bytes after a DIF without data (one block of 256 per \
		       pair of leading bytes), followed by generated bytes and another record",
		run: c11_three,
	},
	Sub {
		name: "chains",
		plan: Plan::Random {
			tape: 300,
			quick: 300_000,
			thorough: 15_000_000,
		},
		rule: "generated value information of any kind with chains of up to 200 VIFEs; \
		       non-trivial with at least one further VIFE",
		run: c11_chain,
	},
	Sub {
		name: "chains that run out",
		plan: Plan::Random {
			tape: 200,
			quick: 150_000,
			thorough: 6_000_000,
		},
		rule: "value information of any kind cut before its end, at the end of the frame: must be \
		       rejected",
		run: c11_cut,
	},
	Sub {
		name: "any data field",
		plan: Plan::Random {
			tape: 200,
			quick: 300_000,
			thorough: 15_000_000,
		},
		rule: "arbitrary bytes as value information under any data field: unit, chain and the \
		       start of the next record are those of the reference decoder; non-trivial if it \
		       accepts them",
		run: c11_any,
	},
];

fn vib_part(e: &MRecord, a: &MRecord) -> Option<String> {
	if e.unit != a.unit {
		return Some(format!("unit: expected {:?}, got {:?}", e.unit, a.unit));
	}
	if e.vifes != a.vifes {
		return Some(format!("VIFEs: expected {:02X?}, got {:02X?}", e.vifes, a.vifes));
	}
	None
}

fn plain_dib(code: u8) -> EDib {
	enc::dib_of(code, 0, 0, 0, 0, 0, false).unwrap()
}

fn c11_codes(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let table = [Table::Primary, Table::Fd, Table::FdFd, Table::Fb][i % 4];
	let v = (i / 4 % 128) as u8;
	let code = enc::CODES[i / 512 % 14];
	let n = [0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 8][i / (512 * 14) % 12];
	let skip = match table {
		Table::Primary => v >= 0x7B,
		Table::Fd => v == 0x7D,
		_ => false,
	};
	if skip {
		return Outcome::new(&[]).nontrivial(false);
	}
	let c = carrier(t);
	let vifes = (n > 0).then(|| (0..n).map(|_| t.u8() & 0x7F).collect());
	let vib = enc::vib_of(EUnit::Code(table, v), vifes);
	let data = enc::data(t, code, &vib.unit, 20);
	let r = enc::record_of(plain_dib(code), vib, data);
	made_outcome(c, r, vib_part)
}

/// A record as encoded, the sentinel after it
fn made_outcome(c: &[u8], r: enc::ERecord, part: Part) -> Outcome {
	let mut body = r.bytes;
	body.extend(SENTINEL);
	let o = Outcome::new(&response(c, &body));
	let mut cur = model::Cur::new(&SENTINEL);
	let sentinel = model::record(&mut cur).expect("sentinel");
	let made = MFrame {
		records: vec![r.record, sentinel],
		more: false,
		manufacturer: Vec::new(),
	};
	o.verdict(judge_made(c, &body, &made, part))
}

fn c11_three(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (a, b) = (i as u8, (i >> 8) as u8);
	let n = t.below(12);
	let tail = t.bytes(n);
	let c = CARRIERS[0];
	let mut valid = 0;
	for v in 0..=255u8 {
		let mut body = vec![0x00, a, b, v];
		body.extend_from_slice(&tail);
		body.extend(SENTINEL);
		let (why, tag) = judge_body(c, &body, vib_part);
		if let Some(w) = why {
			return Outcome::new(&response(c, &body)).fail(w);
		}
		valid += u32::from(tag == "valid");
	}
	Outcome::block(&[a, b], 256).tag(match valid {
		0 => "blocks with no valid body",
		1..=127 => "blocks with some valid bodies",
		_ => "blocks with mostly valid bodies",
	})
}

fn c11_chain(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let unit = enc::unit(t);
	let n = match t.u8() % 4 {
		0 => 0,
		1 => t.range(1, 4),
		2 => t.range(1, 20),
		_ => t.range(1, 200),
	};
	let code = t.pick(&[0, 1, 2, 4, 12]);
	let vifes: Option<Vec<u8>> = (n > 0 && !matches!(unit, EUnit::Invalid(_)))
		.then(|| (0..n).map(|_| t.u8() & 0x7F).collect());
	let long = vifes.is_some();
	let vib = enc::vib_of(unit, vifes);
	let data = enc::data(t, code, &vib.unit, 20);
	let r = enc::record_of(plain_dib(code), vib, data);
	let mut o = made_outcome(c, r, vib_part);
	o.nontrivial = long;
	o.tag(match n {
		0 => "no chain",
		1..=4 => "1-4 VIFEs",
		5..=20 => "5-20 VIFEs",
		_ => "more than 20 VIFEs",
	})
}

fn c11_cut(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let keep = t.u16() as usize;
	let vib = enc::vib(t);
	let mut body = vec![t.pick(&[0x00, 0x01, 0x40, 0x0D])];
	let keep = keep % vib.bytes.len();
	body.extend_from_slice(&vib.bytes[..keep]);
	let o = Outcome::new(&response(c, &body));
	match decode_body(c, &body) {
		Obs::Rej(_) => o,
		Obs::Panic(p) => o.fail(format!("panicked: {p}")),
		Obs::Ok(f) => o.fail(format!("value information is cut short, but accepted as {f:?}")),
	}
}

fn vib_bytes(t: &mut Tape) -> Vec<u8> {
	let mut out = vec![match t.u8() % 3 {
		0 => t.pick(&[0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F, 0xEC, 0xED]),
		_ => t.u8(),
	}];
	let n = t.below(6);
	for _ in 0..n {
		out.push(match t.u8() % 4 {
			0 => 0xFD,
			1 => t.u8() & 0x0F,
			_ => t.u8(),
		});
	}
	out
}

fn c11_any(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let mut body = vec![t.pick(&enc::CODES)];
	body.extend(vib_bytes(t));
	let n = t.below(12);
	body.extend(t.bytes(n));
	// the rest is there to be consumed; what it decodes to is for other checks
	let expected = model::frame(&body);
	let got = decode_body(c, &body);
	let why = obs::judge(
		&expected,
		&got,
		|e, a| {
			if e.records.len() != a.records.len() {
				return Some(format!("expected {:?}, got {:?}", e.records, a.records));
			}
			e.records.iter().zip(&a.records).find_map(|(x, y)| vib_part(x, y))
		},
		false,
	);
	Outcome::new(&response(c, &body))
		.nontrivial(expected.is_ok())
		.verdict(why)
}

// ---------------------------------------------------------------------------
// C18

const VIFS: usize = 4 * 128 + 6;

pub const C18: &[Sub] = &[
	Sub {
		name: "every data field with every unit",
		plan: Plan::Enumerate {
			count: (16 * VIFS * 100) as u64,
			tail: 96,
		},
		rule: "all 16 data fields x all codes of the four tables and the six special ones x 100 \
		       generated data bytes, and another record after it. Every case counts",
		run: c18_all,
	},
	Sub {
		name: "encoded records",
		plan: Plan::Random {
			tape: 400,
			quick: 400_000,
			thorough: 20_000_000,
		},
		rule: "encoded records of any kind: unit, data and end must come back. Every case counts",
		run: c18_made,
	},
	Sub {
		name: "dates by size",
		plan: Plan::Enumerate {
			count: 3 * 16 * 4 * 1500,
			tail: 64,
		},
		rule: "the three date and time units x all 16 data fields x with and without DIFE and VIFE \
		       x 1500 data: the type is used only with its own size",
		run: c18_dates,
	},
	Sub {
		name: "too little data",
		plan: Plan::Random {
			tape: 300,
			quick: 200_000,
			thorough: 10_000_000,
		},
		rule: "an encoded record with its last one or more data bytes missing, at the end of the \
		       frame: rejected; non-trivial if the record has data",
		run: c18_short,
	},
];

fn meaning_part(e: &MRecord, a: &MRecord) -> Option<String> {
	if e.raw != a.raw {
		return Some(format!("data field: expected {}, got {}", e.raw, a.raw));
	}
	if e.unit != a.unit {
		return Some(format!("unit: expected {:?}, got {:?}", e.unit, a.unit));
	}
	diff_data(&e.data, &a.data)
}

fn vif_bytes(n: usize) -> Vec<u8> {
	match n {
		0..=0x7A => vec![n as u8],
		0x7B..=0x7F => vec![0xFD, 0x3A],
		0x80..=0xFF => {
			let v = (n - 0x80) as u8;
			if v == 0x7D {
				vec![0xFD, 0xFD, 0x02]
			} else {
				vec![0xFD, v]
			}
		}
		0x100..=0x17F => vec![0xFD, 0xFD, (n - 0x100) as u8],
		0x180..=0x1FF => vec![0xFB, (n - 0x180) as u8],
		0x200 => vec![0x7B],
		0x201 => vec![0x7D],
		0x202 => vec![0x7E],
		0x203 => vec![0x7F],
		0x204 => vec![0x7C, 0x03, 0x33, 0x6D, 0x20],
		_ => vec![0xFF, 0x01],
	}
}

/// Data bytes that are often acceptable whatever they are read as
fn any_data(t: &mut Tape, n: usize) -> Vec<u8> {
	match t.u8() % 4 {
		0 => t.data(n),
		1 => (0..n).map(|_| t.u8() % 10 + t.u8() % 10 * 16).collect(),
		2 => (0..n).map(|_| 1 + t.u8() % 20).collect(),
		_ => (0..n).map(|_| t.edge_u8()).collect(),
	}
}

fn lvar_bytes(t: &mut Tape) -> Vec<u8> {
	if t.chance(3, 4) {
		enc::lvar(t, tables::Sign::Signed, 70).0
	} else {
		let p = t.u8();
		let mut b = vec![p];
		let n = model::lvar_size(p).unwrap_or(3).min(190);
		b.extend(t.bytes(n));
		b
	}
}

fn c18_all(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let code = (i % 16) as u8;
	let c = carrier(t);
	let mut body = vec![code | t.u8() & 0x70];
	if matches!(body[0], 0x0F | 0x1F | 0x2F) {
		body[0] = 0x3F;
	}
	body.extend(vif_bytes(i / 16 % VIFS));
	body.extend(match model::width(code) {
		Some(n) => any_data(t, n),
		None if code == 13 => lvar_bytes(t),
		None => Vec::new(),
	});
	body.extend(SENTINEL);
	if body.len() > ROOM {
		return Outcome::new(&body).nontrivial(false);
	}
	body_outcome(c, &body, meaning_part)
}

fn c18_made(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let r = enc::record(t, ROOM - 4);
	made_outcome(c, r, meaning_part)
}

fn c18_dates(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let code = (i % 16) as u8;
	let vif: &[u8] = [&[0x6C][..], &[0x6D], &[0xFD, 0x72]][i / 16 % 3];
	let (dife, vife) = (i / 48 % 2 == 1, i / 96 % 2 == 1);
	let c = carrier(t);
	let mut body = vec![code | t.u8() & 0x70];
	if matches!(body[0], 0x0F | 0x1F | 0x2F) {
		body[0] = 0x3F;
	}
	if dife {
		body[0] |= 0x80;
		body.push(t.u8() & 0x7F);
	}
	body.extend_from_slice(vif);
	if vife {
		*body.last_mut().unwrap() |= 0x80;
		body.push(t.u8() & 0x7F);
	}
	let fitting = t.bool();
	let n = model::width(code);
	body.extend(match (i / 16 % 3, code, n) {
		(0, 2, _) if fitting => enc::date_g(t).0,
		(1, 3, _) if fitting => enc::time_j(t).0,
		(1, 4, _) if fitting => enc::date_f(t).0,
		(1, 6, _) if fitting => enc::date_i(t).0,
		(2, 4, _) if fitting => enc::dst_k(t).0,
		(_, _, Some(n)) => any_data(t, n),
		(_, 13, None) => lvar_bytes(t),
		_ => Vec::new(),
	});
	body.extend(SENTINEL);
	if body.len() > ROOM {
		return Outcome::new(&body).nontrivial(false);
	}
	body_outcome(c, &body, meaning_part)
}

fn c18_short(t: &mut Tape) -> Outcome {
	let c = carrier(t);
	let cut = t.u8() as usize;
	let r = enc::record(t, ROOM);
	let width = match &r.record.data {
		MData::None => 0,
		_ => {
			let code = r.bytes[0] & 0x0F;
			model::width(code).unwrap_or(1)
		}
	};
	let mut body = r.bytes.clone();
	if width > 0 {
		body.truncate(r.bytes.len() - (1 + cut % width));
	}
	let o = Outcome::new(&response(c, &body)).nontrivial(width > 0);
	if width == 0 {
		return o;
	}
	match decode_body(c, &body) {
		Obs::Rej(_) => o,
		Obs::Panic(p) => o.fail(format!("panicked: {p}")),
		Obs::Ok(f) => o.fail(format!("data cut short, but accepted as {f:?}")),
	}
}
