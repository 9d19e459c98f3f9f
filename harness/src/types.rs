//! The vocabulary shared by the reference encoder, the reference decoder and the
//! observation of the code under test.

#[derive(Clone, Debug, PartialEq)]
pub enum MData {
	None,
	Signed(i64),
	Unsigned(u64),
	/// Integer bits of a quantity whose signedness the standard leaves open
	Either(i64, u64),
	/// Bits of a single
	Real(u32),
	F {
		minute: u8,
		hour: u8,
		day: u8,
		month: u8,
		year: u8,
		century: u8,
		dst: bool,
	},
	G {
		day: u8,
		month: u8,
		year: u8,
	},
	I {
		second: u8,
		minute: u8,
		hour: u8,
		day: u8,
		month: u8,
		year: u8,
		weekday: u8,
		week: u8,
		dst: bool,
		leap: bool,
		offset: i8,
	},
	J {
		second: u8,
		minute: u8,
		hour: u8,
	},
	K {
		hour: u8,
		start_day: u8,
		start_month: u8,
		end_day: u8,
		end_month: u8,
		enable: bool,
		deviation: i8,
		local: u8,
	},
	Text(String),
	Error(String),
	Big(Vec<u8>),
	/// Something no model value is equal to
	Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MUnit {
	/// Quantity, unit and exponent as the library's type prints them
	Named(String),
	Text(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MRecord {
	pub raw: String,
	pub function: String,
	pub storage: u128,
	pub tariff: u128,
	pub device: u128,
	pub obis: bool,
	pub unit: MUnit,
	pub vifes: Option<Vec<u8>>,
	pub data: MData,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MFrame {
	pub records: Vec<MRecord>,
	pub more: bool,
	pub manufacturer: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MSecurity {
	None,
	Reserved(u16),
	Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MShort {
	pub access: u8,
	/// The status byte, put together again from its fields
	pub status: u8,
	pub security: MSecurity,
	pub extra: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MLong {
	pub id: u32,
	pub manufacturer: String,
	/// None: not claimed
	pub product: Option<Option<String>>,
	pub version: u8,
	pub device: String,
	pub tail: MShort,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MHeader {
	None,
	Short(MShort),
	Long(MLong),
	Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MApp {
	/// None: not claimed
	pub application: Option<String>,
	pub block: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MErr {
	Named(String),
	Dynamic(Box<MRecord>),
	Manufacturer(u8, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MMsg {
	Reset(MHeader),
	Select(MHeader, MApp),
	SelectedRequest(MHeader),
	SelectedResponse(MHeader, MApp),
	SelectDevice(Vec<u8>),
	Baud(String),
	Sync,
	TimeAdjust(MHeader, Vec<u8>),
	TimeSync(MHeader, Vec<u8>),
	Alarm(MHeader, Vec<u8>),
	Error(MHeader, MErr),
	Command(MHeader, Vec<u8>),
	Response(MHeader, MFrame),
	Afl(Vec<u8>),
	Dlms(u8, MHeader, Vec<u8>),
	Image(u8, MHeader, Vec<u8>),
	Manufacturer(u8, Vec<u8>),
	SecurityTransfer(u8, MHeader, Vec<u8>),
	Specific(u8, MHeader, Vec<u8>),
	Wireless(u8, MHeader),
	Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MControl {
	Primary {
		fcb: bool,
		service: String,
	},
	Secondary {
		acd: bool,
		pause: bool,
		service: String,
	},
	Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MPacket {
	Ack,
	Short(MControl, u8),
	Long(MControl, u8, MMsg),
	Other(String),
}

// ---------------------------------------------------------------------------
// Comparison of what is expected with what was decoded. `None` means equal.

fn ne<T: std::fmt::Debug + PartialEq>(what: &str, e: &T, a: &T) -> Option<String> {
	(e != a).then(|| format!("{what}: expected {e:?}, got {a:?}"))
}

pub fn diff_data(e: &MData, a: &MData) -> Option<String> {
	let same = match (e, a) {
		(MData::Either(s, _), MData::Signed(v)) => s == v,
		(MData::Either(_, u), MData::Unsigned(v)) => u == v,
		(MData::Real(x), MData::Real(y)) => {
			// the quiet bit of a NaN is the floating point unit's business
			let nan = |v: u32| f32::from_bits(v).is_nan();
			x == y || (nan(*x) && nan(*y) && (x | 0x0040_0000) == (y | 0x0040_0000))
		}
		_ => e == a,
	};
	(!same).then(|| format!("data: expected {e:?}, got {a:?}"))
}

pub fn diff_record(e: &MRecord, a: &MRecord) -> Option<String> {
	ne("data field", &e.raw, &a.raw)
		.or_else(|| ne("function", &e.function, &a.function))
		.or_else(|| ne("storage", &e.storage, &a.storage))
		.or_else(|| ne("tariff", &e.tariff, &a.tariff))
		.or_else(|| ne("subunit", &e.device, &a.device))
		.or_else(|| ne("OBIS marker", &e.obis, &a.obis))
		.or_else(|| ne("unit", &e.unit, &a.unit))
		.or_else(|| ne("extra VIFEs", &e.vifes, &a.vifes))
		.or_else(|| diff_data(&e.data, &a.data))
}

pub fn diff_frame(e: &MFrame, a: &MFrame) -> Option<String> {
	for (i, (x, y)) in e.records.iter().zip(&a.records).enumerate() {
		if let Some(d) = diff_record(x, y) {
			return Some(format!("record {i}: {d}"));
		}
	}
	ne("number of records", &e.records.len(), &a.records.len())
		.or_else(|| ne("more data follows", &e.more, &a.more))
		.or_else(|| {
			ne(
				"manufacturer specific data",
				&e.manufacturer,
				&a.manufacturer,
			)
		})
}

fn diff_tail(e: &MShort, a: &MShort) -> Option<String> {
	ne("access number", &e.access, &a.access)
		.or_else(|| ne("status", &e.status, &a.status))
		.or_else(|| ne("configuration field", &e.security, &a.security))
		.or_else(|| ne("extra header", &e.extra, &a.extra))
}

pub fn diff_header(e: &MHeader, a: &MHeader) -> Option<String> {
	match (e, a) {
		(MHeader::None, MHeader::None) => None,
		(MHeader::Short(x), MHeader::Short(y)) => diff_tail(x, y),
		(MHeader::Long(x), MHeader::Long(y)) => ne("identification", &x.id, &y.id)
			.or_else(|| ne("manufacturer", &x.manufacturer, &y.manufacturer))
			.or_else(|| match &x.product {
				None => None,
				p => ne("product", p, &y.product),
			})
			.or_else(|| ne("version", &x.version, &y.version))
			.or_else(|| ne("device type", &x.device, &y.device))
			.or_else(|| diff_tail(&x.tail, &y.tail)),
		_ => Some(format!("header form: expected {e:?}, got {a:?}")),
	}
}

fn diff_app(e: &MApp, a: &MApp) -> Option<String> {
	ne("block number", &e.block, &a.block).or_else(|| match &e.application {
		None => None,
		x => ne("application", x, &a.application),
	})
}

pub fn diff_msg(e: &MMsg, a: &MMsg) -> Option<String> {
	use MMsg::*;
	match (e, a) {
		(Reset(h), Reset(i)) | (SelectedRequest(h), SelectedRequest(i)) => diff_header(h, i),
		(Select(h, x), Select(i, y)) | (SelectedResponse(h, x), SelectedResponse(i, y)) => {
			diff_header(h, i).or_else(|| diff_app(x, y))
		}
		(TimeAdjust(h, x), TimeAdjust(i, y))
		| (TimeSync(h, x), TimeSync(i, y))
		| (Alarm(h, x), Alarm(i, y))
		| (Command(h, x), Command(i, y)) => diff_header(h, i).or_else(|| ne("payload", x, y)),
		(Error(h, x), Error(i, y)) => diff_header(h, i).or_else(|| match (x, y) {
			(MErr::Dynamic(r), MErr::Dynamic(s)) => diff_record(r, s),
			_ => ne("error", x, y),
		}),
		(Response(h, x), Response(i, y)) => diff_header(h, i).or_else(|| diff_frame(x, y)),
		(Dlms(c, h, x), Dlms(d, i, y))
		| (Image(c, h, x), Image(d, i, y))
		| (SecurityTransfer(c, h, x), SecurityTransfer(d, i, y))
		| (Specific(c, h, x), Specific(d, i, y)) => ne("CI", c, d)
			.or_else(|| diff_header(h, i))
			.or_else(|| ne("payload", x, y)),
		(Wireless(c, h), Wireless(d, i)) => ne("CI", c, d).or_else(|| diff_header(h, i)),
		_ => ne("message", e, a),
	}
}

pub fn diff_packet(e: &MPacket, a: &MPacket) -> Option<String> {
	match (e, a) {
		(MPacket::Long(c, n, m), MPacket::Long(d, o, p)) => ne("control", c, d)
			.or_else(|| ne("address", n, o))
			.or_else(|| diff_msg(m, p)),
		_ => ne("packet", e, a),
	}
}
