//! C30: recorded telegrams mean what the reference implementation (rSCADA
//! libmbus) recorded for them; alone, taken apart and put together anew. The
//! readings come from the repository's test data (tools/gen_readings.py), and
//! owe nothing to the tables the other checks use.

use std::fmt::Debug;
use std::sync::OnceLock;

use super::*;
use crate::engine::{hex, unhex, Outcome, Plan, Sub};

pub const C30: &[Sub] = &[
	Sub {
		name: "recorded telegrams",
		plan: Plan::Enumerate {
			count: 70 * 64,
			tail: 8,
		},
		rule: "each recorded telegram that has a recorded reading, under any control byte for user data, \
		       address, access number and status. Every case counts",
		run: c30_recorded,
	},
	Sub {
		name: "put together anew",
		plan: Plan::Random {
			tape: 200,
			quick: 300_000,
			thorough: 20_000_000,
		},
		rule: "records of all recorded telegrams in any selection, order and number that fits, with \
		       fillers between them, behind the header of one of them, with the end of another; \
		       non-trivial with two or more records",
		run: c30_composed,
	},
	Sub {
		name: "other numbers",
		plan: Plan::Random {
			tape: 300,
			quick: 500_000,
			thorough: 30_000_000,
		},
		rule: "the value information of recorded records before other numbers, of any size and in any \
		       data field, with other storage numbers, tariffs and subunits; what a count of one is worth \
		       follows from the recorded reading. Non-trivial if the number is not zero",
		run: c30_numbers,
	},
	Sub {
		name: "recorded errors",
		plan: Plan::Enumerate {
			count: 12 * 256,
			tail: 40,
		},
		rule: "each recorded error report, from any address, with no header or that of a recorded \
		       telegram. Every case counts",
		run: c30_errors,
	},
	Sub {
		name: "recorded faults",
		plan: Plan::Random {
			tape: 100,
			quick: 100_000,
			thorough: 5_000_000,
		},
		rule: "the telegrams recorded as faulty, and what is at fault in them behind recorded \
		       records; all must be rejected. Non-trivial with a record before the fault",
		run: c30_faults,
	},
];

/// What the reference implementation says of a record
struct Expect {
	function: String,
	storage: Option<u128>,
	tariff: Option<u128>,
	device: Option<u128>,
	quantity: String,
	unit: String,
	value: String,
}

struct Piece {
	bytes: Vec<u8>,
	expect: Expect,
	/// The reference implementation makes numbers of bad BCD digits, and nothing
	/// of VIF 7B without an extension. Neither is claimed.
	claimed: bool,
}

#[derive(Clone)]
struct Head {
	/// CI and header as transmitted
	bytes: Vec<u8>,
	id: u32,
	manufacturer: String,
	version: u8,
	product: String,
	medium: String,
	access: u8,
	status: u8,
}

struct Telegram {
	bytes: Vec<u8>,
	head: Head,
	pieces: Vec<Piece>,
	/// Whether more records follow, and the manufacturer specific data
	tail: Option<(bool, Vec<u8>)>,
}

#[derive(Default)]
struct Readings {
	telegrams: Vec<Telegram>,
	/// Error reports: the data after the CI byte, and what they say
	errors: Vec<(Vec<u8>, String)>,
	/// Telegrams that are at fault, and the fault itself if it is at the end of
	/// a response
	faulty: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

impl Readings {
	/// All records that have a reading
	fn pieces(&self) -> Vec<&Piece> {
		let all = self.telegrams.iter().flat_map(|t| &t.pieces);
		all.filter(|p| p.claimed).collect()
	}
}

fn field(s: &str) -> Option<String> {
	s.strip_prefix('=').map(str::to_owned)
}

fn readings() -> &'static Readings {
	static ALL: OnceLock<Readings> = OnceLock::new();
	ALL.get_or_init(|| {
		let text = include_str!("../../corpus/readings.txt");
		let mut all = Readings::default();
		let mut lines = text.lines().peekable();
		while let Some(line) = lines.next() {
			let f: Vec<&str> = line.split('\t').collect();
			let is = |i: usize| field(f[i]).unwrap_or_default();
			let num = |i: usize| is(i).parse::<u32>().expect("readings");
			match f[0] {
				"T" => {
					let mut expected = Vec::new();
					while let Some(line) = lines.next_if(|l| l.starts_with('R')) {
						let f: Vec<&str> = line.split('\t').collect();
						let is = |i: usize| field(f[i]).unwrap_or_default();
						let num = |i: usize| field(f[i]).and_then(|v| v.parse().ok());
						expected.push(Expect {
							function: is(1),
							storage: num(2),
							tariff: num(3),
							device: num(4),
							quantity: is(5),
							unit: is(6),
							value: is(7),
						});
					}
					let bytes = unhex(f[2]).expect("readings");
					let head = Head {
						bytes: bytes[6..19].to_vec(),
						id: num(3),
						manufacturer: is(4),
						version: num(5) as u8,
						product: is(6),
						medium: is(7),
						access: num(8) as u8,
						status: u8::from_str_radix(&is(9), 16).expect("readings"),
					};
					if let Some((pieces, tail)) = apart(&bytes, expected) {
						all.telegrams.push(Telegram {
							bytes,
							head,
							pieces,
							tail,
						});
					}
				}
				"E" => all.errors.push((
					{
						let d = unhex(f[2]).expect("readings");
						d[7..d.len() - 2].to_vec()
					},
					is(3),
				)),
				"F" => {
					let d = unhex(f[2]).expect("readings");
					let fault = d.get(19..d.len() - 2).and_then(|body| {
						let mut c = model::Cur::new(body);
						loop {
							let from = c.p;
							if model::record(&mut c).is_err() {
								break Some(body[from..].to_vec());
							}
							if c.p == body.len() {
								break None;
							}
						}
					});
					all.faulty.push((d, fault));
				}
				other => panic!("readings: {other}"),
			}
		}
		all
	})
}

/// The records of a recorded telegram, each with its reading, and its end. None
/// if it has a date in it that is marked invalid, for which it is rejected.
#[allow(clippy::type_complexity)]
fn apart(d: &[u8], expected: Vec<Expect>) -> Option<(Vec<Piece>, Option<(bool, Vec<u8>)>)> {
	let body = &d[19..d.len() - 2];
	let mut c = model::Cur::new(body);
	let mut expected = expected.into_iter();
	let mut pieces = Vec::new();
	while c.p < body.len() {
		match body[c.p] {
			0x2F => c.p += 1,
			m @ (0x0F | 0x1F) => {
				let rest = body[c.p + 1..].to_vec();
				let e = expected.next().expect("readings");
				let says = unhex(&e.value.replace(' ', "")).expect("readings");
				assert_eq!(rest, says);
				assert_eq!(m == 0x1F, e.function == "More records follow");
				return Some((pieces, Some((m == 0x1F, rest))));
			}
			_ => {
				let from = c.p;
				let r = model::record(&mut c).ok()?;
				let expect = expected.next().expect("readings");
				let claimed = !expect.function.is_empty() && !matches!(r.data, MData::Error(_));
				pieces.push(Piece {
					bytes: body[from..c.p].to_vec(),
					expect,
					claimed,
				});
			}
		}
	}
	Some((pieces, None))
}

#[derive(Debug, PartialEq)]
enum Value {
	Number(f64),
	Text(String),
}

/// Multiplicative corrections are left to the caller
fn correction(vifes: &Option<Vec<u8>>) -> f64 {
	let codes = vifes.iter().flatten();
	codes
		.map(|v| match v {
			0x70..=0x77 => 10f64.powi(i32::from(v & 7) - 6),
			0x7D => 1000.0,
			_ => 1.0,
		})
		.product()
}

/// Quantity, unit and what a count of one is worth, in the words of the reference
/// implementation
fn units(r: &MRecord) -> (String, String, f64) {
	let (name, args) = match &r.unit {
		MUnit::Text(t) => (t.clone(), Vec::new()),
		MUnit::Named(n) => match n.split_once('(') {
			Some((n, a)) => (
				n.to_owned(),
				a.trim_end_matches(')').split(", ").map(str::to_owned).collect(),
			),
			None => (n.clone(), Vec::new()),
		},
	};
	let exp = |i: usize| args.get(i).and_then(|a: &String| a.parse::<i32>().ok()).unwrap_or(0);
	let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
	let time = |i: usize| match arg(i) {
		"Seconds" => 1.0,
		"Minutes" => 60.0,
		"Hours" => 3600.0,
		"Days" => 86400.0,
		_ => f64::NAN,
	};
	let ten = |e: i32| 10f64.powi(e);
	let (q, u, scale) = match (name.as_str(), arg(0)) {
		("Energy", "Wh") => ("Energy", "Wh", ten(exp(1))),
		("Energy", "J") => ("Energy", "J", ten(exp(1))),
		("Energy", "MWh") => ("Energy", "Wh", ten(exp(1) + 6)),
		("Energy", "GJ") => ("Energy", "J", ten(exp(1) + 9)),
		("Volume", "M3") => ("Volume", "m^3", ten(exp(1))),
		("Mass", "Kg") => ("Mass", "kg", ten(exp(1))),
		("Mass", "T") => ("Mass", "kg", ten(exp(1) + 3)),
		("Power", "W") => ("Power", "W", ten(exp(1))),
		("Power", "MW") => ("Power", "W", ten(exp(1) + 6)),
		("Power", "Jph") => ("Power", "J/h", ten(exp(1))),
		("Power", "GJph") => ("Power", "J/h", ten(exp(1) + 9)),
		("VolumeFlow", "Hours") => ("Volume flow", "m^3/h", ten(exp(1))),
		("VolumeFlow", "Minutes") => ("Volume flow", "m^3/min", ten(exp(1))),
		("VolumeFlow", "Seconds") => ("Volume flow", "m^3/s", ten(exp(1))),
		("MassFlow", "Hours") => ("Mass flow", "kg/h", ten(exp(1))),
		("OnTime", _) => ("On time", "s", time(0)),
		("OperatingTime", _) => ("Operating time", "s", time(0)),
		("AveragingDuration", _) => ("Averaging Duration", "s", time(0)),
		("ActualityDuration", _) => ("Actuality Duration", "s", time(0)),
		("FlowTemperature", _) => ("Flow temperature", "°C", ten(exp(0))),
		("ReturnTemperature", _) => ("Return temperature", "°C", ten(exp(0))),
		("ExternalTemperature", _) => ("External temperature", "°C", ten(exp(0))),
		("TemperatureDifference", _) => ("Temperature difference", "K", ten(exp(0))),
		("Pressure", _) => ("Pressure", "bar", ten(exp(0))),
		("Volts", _) => ("Voltage", "V", ten(exp(0))),
		("Amperes", _) => ("Current", "A", ten(exp(0))),
		("TypeGDate", _) => ("Time point (date)", "-", 1.0),
		("TypeFDateTime", _) => ("Time point (date & time)", "-", 1.0),
		("TypeIDateTime", _) => ("Time point (date & time)", "-", 1.0),
		("HCA", _) => ("H.C.A.", "Units for H.C.A.", 1.0),
		("FabricationNumber", _) => ("Fabrication No", "", 1.0),
		("EnhancedIdentification", _) => ("(Enhanced) Identification", "", 1.0),
		("Address", _) => ("Bus Address", "", 1.0),
		("ManufacturerSpecific", _) => ("Manufacturer specific", "", 1.0),
		("ErrorFlags", _) => ("Error flags", "", 1.0),
		("OtherSoftwareVersionNumber", _) => ("Software version", "", 1.0),
		("MetrologyFirmwareVersionNumber", _) => ("Firmware version", "", 1.0),
		("HardwareVersionNumber", _) => ("Hardware version", "", 1.0),
		("ModelVersion", _) => ("Model / Version", "", 1.0),
		("ParameterSetIdentification", _) => ("Parameter set identification", "", 1.0),
		("DigitalInput", _) => ("Digital Input", "", 1.0),
		("DigitalOutput", _) => ("Digital Output", "", 1.0),
		("Dimensionless", _) => ("Dimensionless", "", 1.0),
		("ResetCounter", _) => ("Reset counter", "", 1.0),
		("SpecialSupplierInformation", _) => ("Special supplier information", "", 1.0),
		("CustomerLocation", _) => ("Customer location", "", 1.0),
		("DeviceType", _) => ("Medium", "", 1.0),
		("ReservedCode", _) => ("Reserved", "Reserved", 1.0),
		(n, _) => (n, "-", 1.0),
	};
	(q.to_owned(), u.to_owned(), scale * correction(&r.vifes))
}

fn reading(r: &MRecord) -> (String, String, Value) {
	let (q, u, scale) = units(r);
	let day = |d: u8, m: u8, y: u8| format!("{:04}-{m:02}-{d:02}", 2000 + u32::from(y));
	let value = match &r.data {
		MData::Signed(v) => Value::Number(*v as f64 * scale),
		MData::Unsigned(v) => Value::Number(*v as f64 * scale),
		MData::Real(b) => Value::Number(f64::from(f32::from_bits(*b)) * scale),
		// the reference implementation knows of one century only
		MData::G { day: d, month, year } => Value::Text(day(*d, *month, *year)),
		MData::F {
			minute,
			hour,
			day: d,
			month,
			year,
			..
		} => Value::Text(format!("{}T{hour:02}:{minute:02}:00Z", day(*d, *month, *year))),
		MData::I {
			second,
			minute,
			hour,
			day: d,
			month,
			year,
			..
		} => Value::Text(format!(
			"{}T{hour:02}:{minute:02}:{second:02}Z",
			day(*d, *month, *year)
		)),
		MData::Text(s) => Value::Text(s.clone()),
		MData::None => Value::Number(0.0),
		other => Value::Text(format!("{other:?}")),
	};
	(q, u, value)
}

fn function(name: &str) -> &'static str {
	match name {
		"InstantaneousValue" => "Instantaneous value",
		"MaximumValue" => "Maximum value",
		"MinimumValue" => "Minimum value",
		"ValueDuringErrorState" => "Value during error state",
		_ => "?",
	}
}

fn differs(e: &Expect, r: &MRecord) -> Option<String> {
	let (q, u, v) = reading(r);
	let mut out = Vec::new();
	let mut say = |what: &str, e: &dyn Debug, a: &dyn Debug| {
		out.push(format!("{what}: recorded {e:?}, decoded {a:?}"));
	};
	if e.function != function(&r.function) {
		say("function", &e.function, &r.function);
	}
	for (what, e, a) in [
		("storage number", e.storage, r.storage),
		("tariff", e.tariff, r.tariff),
		("device", e.device, r.device),
	] {
		if e.is_some_and(|e| e != a) {
			say(what, &e, &a);
		}
	}
	if e.quantity != q {
		say("quantity", &e.quantity, &q);
	}
	if e.unit != u {
		say("unit", &e.unit, &u);
	}
	let same = match (&v, e.value.parse::<f64>()) {
		(Value::Number(a), Ok(e)) => (a - e).abs() <= 6e-7 + 1e-7 * e.abs(),
		(Value::Text(a), _) => *a == e.value,
		_ => false,
	};
	if !same {
		say("value", &e.value, &v);
	}
	(!out.is_empty()).then(|| out.join(", "))
}

fn medium(device: &str) -> Option<&'static str> {
	Some(match device {
		"Other" => "Other",
		"OilMeter" => "Oil",
		"ElectricityMeter" => "Electricity",
		"GasMeter" => "Gas",
		"ThermalEnergyMeter(OutletHeat)" => "Heat: Outlet",
		"ThermalEnergyMeter(InletHeat)" => "Heat: Inlet",
		"ThermalEnergyMeter(Combined)" => "Heat / Cooling load meter",
		"WaterMeter(Warm)" => "Warm water (30-90°C)",
		"WaterMeter(Potable)" => "Water",
		"WaterMeter(Cold)" => "Cold water",
		"HeatCostAllocator" => "Heat Cost Allocator",
		"BusOrSystemComponent" => "Bus/System",
		"ElectricalBreaker" => "Breaker: Electricity",
		_ => return None,
	})
}

fn header_differs(e: &Head, h: &MHeader) -> Option<String> {
	let MHeader::Long(l) = h else {
		return Some(format!("not a long header: {h:?}"));
	};
	let product = l.product.clone().flatten().unwrap_or_default();
	let pairs: [(&str, &dyn Debug, &dyn Debug); 7] = [
		("identification", &e.id, &l.id),
		("manufacturer", &e.manufacturer, &l.manufacturer),
		("version", &e.version, &l.version),
		("product", &e.product, &product),
		("medium", &Some(e.medium.as_str()), &medium(&l.device)),
		("access number", &e.access, &l.tail.access),
		("status", &e.status, &l.tail.status),
	];
	pairs.iter().find_map(|(what, e, a)| {
		let (e, a) = (format!("{e:?}"), format!("{a:?}"));
		(e != a).then(|| format!("{what}: recorded {e}, decoded {a}"))
	})
}

/// A response against what its header, its records and its end were recorded to be
fn judge(d: &[u8], head: Option<&Head>, pieces: &[&Piece], tail: Option<&(bool, Vec<u8>)>) -> Option<String> {
	let (h, f) = match obs::packet(d) {
		Obs::Ok(MPacket::Long(_, _, MMsg::Response(h, f))) => (h, f),
		Obs::Ok(other) => return Some(format!("not a response: {other:?}")),
		Obs::Rej(e) => return Some(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Panic(p) => return Some(format!("panicked: {p}")),
	};
	if let Some(why) = head.and_then(|e| header_differs(e, &h)) {
		return Some(why);
	}
	if f.records.len() != pieces.len() {
		return Some(format!("{} records, decoded {}", pieces.len(), f.records.len()));
	}
	for (p, r) in pieces.iter().zip(&f.records) {
		if let Some(why) = differs(&p.expect, r).filter(|_| p.claimed) {
			return Some(format!("record {}: {why}", hex(&p.bytes)));
		}
	}
	let (more, data) = tail.map_or((false, &[][..]), |(m, d)| (*m, &d[..]));
	if f.more != more || f.manufacturer != data {
		return Some(format!(
			"end: recorded {more} {data:02X?}, decoded {} {:02X?}",
			f.more, f.manufacturer
		));
	}
	None
}

fn c30_recorded(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let all = &readings().telegrams;
	let g = &all[i % all.len()];
	let mut d = g.bytes.clone();
	let (mut access, mut status) = (g.head.access, g.head.status);
	if i >= all.len() {
		d[4] = t.pick(&[0x08, 0x18, 0x28, 0x38]);
		d[5] = t.u8();
		if t.bool() {
			access = t.u8();
			status = t.u8();
		}
		d[15] = access;
		d[16] = status;
		let n = d.len();
		d[n - 2] = model::sum(&d[4..n - 2]);
	}
	let mut head = g.head.clone();
	head.access = access;
	head.status = status;
	let pieces: Vec<&Piece> = g.pieces.iter().collect();
	Outcome::new(&d).verdict(judge(&d, Some(&head), &pieces, g.tail.as_ref()))
}

fn c30_composed(t: &mut Tape) -> Outcome {
	let all = readings();
	let from = t.below(all.telegrams.len());
	let g = &all.telegrams[from];
	let every = all.pieces();
	let mut payload = g.head.bytes.clone();
	let end = t.chance(1, 3).then(|| {
		let k = t.below(all.telegrams.len());
		all.telegrams[k].tail.as_ref()
	});
	let end = end.flatten().filter(|(_, d)| d.len() < 80);
	let room = enc::MAX_PAYLOAD - end.map_or(0, |(_, d)| d.len() + 1);
	let fillers = t.chance(1, 3);
	let mut pieces = Vec::new();
	let n = t.len(40);
	for _ in 0..n {
		if fillers && t.chance(1, 2) {
			let k = t.below(4).min(room - payload.len());
			payload.extend(&[0x2F; 4][..k]);
		}
		let p = every[t.below(every.len())];
		if payload.len() + p.bytes.len() > room {
			break;
		}
		payload.extend(&p.bytes);
		pieces.push(p);
	}
	if let Some((more, data)) = end {
		payload.push(if *more { 0x1F } else { 0x0F });
		payload.extend(data);
	}
	let d = enc::long_frame(t.pick(&[0x08, 0x18, 0x28, 0x38]), t.u8(), &payload);
	Outcome::new(&d)
		.nontrivial(pieces.len() > 1)
		.verdict(judge(&d, Some(&g.head), &pieces, end))
}

/// Value information with what a count of one was recorded to be worth
struct Worth {
	vib: Vec<u8>,
	quantity: &'static str,
	unit: &'static str,
	one: f64,
}

fn worths() -> &'static [Worth] {
	static ALL: OnceLock<Vec<Worth>> = OnceLock::new();
	ALL.get_or_init(|| {
		let mut out: Vec<Worth> = Vec::new();
		for p in readings().pieces() {
			let mut c = model::Cur::new(&p.bytes);
			let (Ok(_), from) = (model::dib(&mut c), c.p) else {
				continue;
			};
			let Ok((_, vib_end)) = model::vib(&mut c).map(|v| (v, c.p)) else {
				continue;
			};
			let vib = p.bytes[from..vib_end].to_vec();
			let Ok(r) = model::record(&mut model::Cur::new(&p.bytes)) else {
				continue;
			};
			let raw = match r.data {
				MData::Signed(v) if v != 0 => v as f64,
				MData::Unsigned(v) if v != 0 => v as f64,
				_ => continue,
			};
			let Ok(value) = p.expect.value.parse::<f64>() else {
				continue;
			};
			// six digits after the point are recorded: what it is of is a
			// power of ten, or of that many seconds
			let ratio = value / raw;
			let exact = [1.0, 60.0, 3600.0, 86400.0]
				.iter()
				.flat_map(|f| (-6..10).map(move |e| f * 10f64.powi(e)))
				.find(|one| (ratio / one - 1.0).abs() < 1e-3);
			let Some(one) = exact.filter(|_| value.abs() > 1e-3) else {
				continue;
			};
			if out.iter().all(|w| w.vib != vib) {
				out.push(Worth {
					vib,
					quantity: &p.expect.quantity,
					unit: &p.expect.unit,
					one,
				});
			}
		}
		assert!(out.len() > 60, "readings: {} units", out.len());
		out
	})
}

fn c30_numbers(t: &mut Tape) -> Outcome {
	let w = &worths()[t.below(worths().len())];
	// a number as binary of 1 to 8 bytes or as BCD
	let code = t.pick(&[1u8, 2, 3, 4, 6, 7, 9, 10, 11, 12, 14]);
	let mut data;
	let raw: f64;
	if code < 8 {
		let n = if code == 7 { 8 } else { usize::from(code) };
		data = t.bytes(n);
		if t.chance(1, 4) {
			let at = t.below(n);
			data[at] = t.edge_u8();
		}
		// whether large ones are negative is another question
		data[n - 1] &= 0x7F;
		raw = data.iter().rev().fold(0.0, |a, b| a * 256.0 + f64::from(*b));
	} else {
		let n = usize::from(code) - 8;
		let mut digits: Vec<u8> = (0..2 * n).map(|_| t.u8() % 10).collect();
		let negative = t.chance(1, 4);
		if negative {
			digits[0] = 15;
		}
		data = digits.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
		data.reverse();
		let v = digits
			.iter()
			.filter(|d| **d < 10)
			.fold(0.0, |a, d| a * 10.0 + f64::from(*d));
		raw = if negative { -v } else { v };
	}
	let dib = enc::dib(t, code);
	let mut bytes = dib.bytes.clone();
	bytes.extend(&w.vib);
	bytes.extend(&data);
	let c = carrier(t);
	let d = response(c, &bytes);
	let out = Outcome::new(&d).nontrivial(raw != 0.0);
	let why = match decode_body(c, &bytes) {
		Obs::Panic(p) => Some(format!("panicked: {p}")),
		Obs::Rej(e) => Some(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Ok(f) if f.records.len() != 1 => Some(format!("one record, decoded {:?}", f.records)),
		Obs::Ok(f) => {
			let r = &f.records[0];
			let (q, u, v) = reading(r);
			let want = raw * w.one;
			let same = matches!(v, Value::Number(v) if (v - want).abs() <= 1e-9 * want.abs());
			if q != w.quantity || u != w.unit || !same {
				Some(format!(
					"recorded to be {} {} of {want}, decoded {q} {u} {v:?}",
					w.quantity, w.unit
				))
			} else if (r.storage, r.tariff, r.device) != (dib.storage, dib.tariff, dib.device) {
				Some(format!(
					"storage {} tariff {} subunit {}, decoded {} {} {}",
					dib.storage, dib.tariff, dib.device, r.storage, r.tariff, r.device
				))
			} else if function(&r.function) != function(model::FUNCTIONS[usize::from(dib.function)]) {
				Some(format!("function {}, decoded {}", dib.function, r.function))
			} else {
				None
			}
		}
	};
	out.verdict(why)
}

fn error_text(name: &str) -> Option<&'static str> {
	Some(match name {
		"Unspecified" => "Unspecified error",
		"CIFieldError" => "Unimplemented CI-Field",
		"BufferOverflow" => "Buffer too long, truncated",
		"RecordOverflow" => "Too many records",
		"RecordError" => "Premature end of record",
		"DIFEOverflow" => "More than 10 DIFE´s",
		"VIFEOverflow" => "More than 10 VIFE´s",
		"ApplicationBusy" => "Application busy",
		"CreditOverflow" => "Too many readouts",
		_ => return None,
	})
}

fn c30_errors(t: &mut Tape) -> Outcome {
	let i = t.index() as usize;
	let all = readings();
	let (data, says) = &all.errors[i % all.errors.len()];
	let mut payload = match t.u8() % 3 {
		0 => vec![0x70],
		k => {
			let g = &all.telegrams[t.below(all.telegrams.len())];
			if k == 1 {
				[&[0x6F], &g.head.bytes[1..]].concat()
			} else {
				[&[0x6E], &g.head.bytes[9..]].concat()
			}
		}
	};
	payload.extend(data);
	let d = enc::long_frame(0x08, (i / all.errors.len()) as u8, &payload);
	let why = match obs::packet(&d) {
		Obs::Ok(MPacket::Long(_, _, MMsg::Error(_, MErr::Named(n)))) => {
			let got = error_text(&n);
			(got != Some(says)).then(|| format!("recorded {says:?}, decoded {n}"))
		}
		Obs::Ok(other) => Some(format!("recorded {says:?}, decoded {other:?}")),
		Obs::Rej(e) => Some(format!("rejected: {}", e.trim().replace('\n', " / "))),
		Obs::Panic(p) => Some(format!("panicked: {p}")),
	};
	Outcome::new(&d).verdict(why)
}

fn c30_faults(t: &mut Tape) -> Outcome {
	let all = readings();
	let (whole, fault) = &all.faulty[t.below(all.faulty.len())];
	let mut n = 0;
	let d = match fault {
		Some(fault) if t.chance(7, 8) => {
			let every = all.pieces();
			let mut payload = all.telegrams[t.below(all.telegrams.len())].head.bytes.clone();
			for _ in 0..t.below(12) {
				let p = every[t.below(every.len())];
				if payload.len() + p.bytes.len() + fault.len() <= enc::MAX_PAYLOAD {
					payload.extend(&p.bytes);
					n += 1;
				}
			}
			payload.extend(fault);
			enc::long_frame(0x08, t.u8(), &payload)
		}
		_ => whole.clone(),
	};
	let why = match obs::packet(&d) {
		Obs::Rej(_) => None,
		Obs::Ok(p) => Some(format!("recorded to be at fault, decoded {p:?}")),
		Obs::Panic(p) => Some(format!("panicked: {p}")),
	};
	Outcome::new(&d).nontrivial(n > 0).verdict(why)
}
