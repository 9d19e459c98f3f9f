//! Observes the code under test: runs it on bytes, catches its panics, and
//! translates what it returns into the vocabulary of `types`. Every translation
//! has an arm for values that the library may come to have.

#![allow(unreachable_patterns)]

use std::panic::{catch_unwind, AssertUnwindSafe};

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::ValueType;
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::link_layer::{Control, DataFlowControl, Packet};
use libmbus::parse::transport_layer::control_info::MBusMessage;
use libmbus::parse::transport_layer::header::{
	ApplicationError, MeterStatus, SecurityMode, TPLHeader,
};
use libmbus::parse::types::DataType;
use winnow::error::{ContextError, ErrorConvert};
use winnow::prelude::*;
use winnow::Bytes;

use crate::engine;
use crate::model::{Stop, Verdict};
use crate::types::*;

pub enum Obs<T> {
	Ok(T),
	/// Rejected, with the rendered report
	Rej(String),
	Panic(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(|| cov::within(f))).map_err(|_| engine::last_panic())
}

/// Decode a packet as the command line tool does
pub fn raw_packet(d: &[u8]) -> Result<Result<Packet, String>, String> {
	catch(|| {
		Packet::parse
			.parse(Bytes::new(d))
			.map_err(|e| e.into_inner().to_string())
	})
}

pub fn packet(d: &[u8]) -> Obs<MPacket> {
	match raw_packet(d) {
		Err(p) => Obs::Panic(p),
		Ok(Err(e)) => Obs::Rej(e),
		Ok(Ok(p)) => Obs::Ok(conv_packet(&p)),
	}
}

/// Accepted? None if it panicked
pub fn accepts(d: &[u8]) -> Option<bool> {
	catch(|| Packet::parse.parse(Bytes::new(d)).is_ok()).ok()
}

/// The report of a part decoder
pub fn inner(e: ContextError<MBusContext>) -> String {
	let e: MBusError = e.convert();
	e.to_string()
}

impl<T> Obs<T> {
	pub fn describe(&self) -> &'static str {
		match self {
			Obs::Ok(_) => "accepted",
			Obs::Rej(_) => "rejected",
			Obs::Panic(_) => "panicked",
		}
	}
}

/// Compare with what must come out
pub fn judge<T, M: std::fmt::Debug>(
	expected: &Result<M, Stop>,
	got: &Obs<T>,
	diff: impl Fn(&M, &T) -> Option<String>,
	lenient: bool,
) -> Option<String> {
	match (expected, got) {
		(_, Obs::Panic(p)) => Some(format!("panicked: {p}")),
		(Err(Stop::Open(_)), _) => None,
		(Err(Stop::Reject(_)), Obs::Rej(_)) => None,
		(Err(Stop::Reject(why)), Obs::Ok(_)) => {
			Some(format!("accepted, must be rejected ({why})"))
		}
		(Ok(_), Obs::Rej(_)) if lenient => None,
		(Ok(m), Obs::Rej(e)) => Some(format!(
			"rejected ({}), must be {m:?}",
			e.trim().replace('\n', " / ")
		)),
		(Ok(m), Obs::Ok(t)) => diff(m, t),
	}
}

pub fn judge_packet(expected: &Result<Verdict, Stop>, got: &Obs<MPacket>) -> Option<String> {
	let lenient = matches!(expected, Ok(v) if v.lenient);
	judge(expected, got, |v, p| diff_packet(&v.packet, p), lenient)
}

// ---------------------------------------------------------------------------

pub fn conv_packet(p: &Packet) -> MPacket {
	match p {
		Packet::Ack => MPacket::Ack,
		Packet::Short { control, address } => MPacket::Short(conv_control(control), *address),
		Packet::Long {
			control,
			address,
			message,
		} => MPacket::Long(conv_control(control), *address, conv_msg(message)),
		other => MPacket::Other(format!("{other:?}")),
	}
}

fn conv_control(c: &Control) -> MControl {
	match c {
		Control::Primary {
			frame_count_bit,
			message,
		} => MControl::Primary {
			fcb: *frame_count_bit,
			service: format!("{message:?}"),
		},
		Control::Secondary {
			access_demand,
			data_flow_control,
			message,
		} => MControl::Secondary {
			acd: *access_demand,
			pause: matches!(data_flow_control, DataFlowControl::Pause),
			service: format!("{message:?}"),
		},
		other => MControl::Other(format!("{other:?}")),
	}
}

fn conv_status(s: &MeterStatus) -> u8 {
	let bit = |b: bool, v: u8| if b { v } else { 0 };
	bit(s.manufacturer_2, 0x80)
		| bit(s.manufacturer_1, 0x40)
		| bit(s.manufacturer_0, 0x20)
		| bit(s.temporary_error, 0x10)
		| bit(s.permanent_error, 0x08)
		| bit(s.power_low, 0x04)
		| match s.application {
			ApplicationError::None => 0,
			ApplicationError::Busy => 1,
			ApplicationError::Error => 2,
			ApplicationError::Alarm => 3,
			_ => 0,
		}
}

fn conv_security(s: &SecurityMode) -> MSecurity {
	match s {
		SecurityMode::None => MSecurity::None,
		SecurityMode::Reserved(v) => MSecurity::Reserved(*v),
		other => MSecurity::Other(format!("{other:?}")),
	}
}

fn conv_header(h: &TPLHeader) -> MHeader {
	match h {
		TPLHeader::None => MHeader::None,
		TPLHeader::Short(s) => MHeader::Short(MShort {
			access: s.access_number,
			status: conv_status(&s.status),
			security: conv_security(&s.configuration_field),
			extra: s.extra_header.is_some(),
		}),
		TPLHeader::Long(l) => MHeader::Long(MLong {
			id: l.identifier,
			manufacturer: l.manufacturer.clone(),
			product: Some(l.device_name.map(|n| n.to_owned())),
			version: l.version,
			device: format!("{:?}", l.device_type),
			tail: MShort {
				access: l.access_number,
				status: conv_status(&l.status),
				security: conv_security(&l.configuration_field),
				extra: l.extra_header.is_some(),
			},
		}),
		other => MHeader::Other(format!("{other:?}")),
	}
}

/// Its fields are private: read them off the Debug output, whatever they are
/// called and in whatever order they come. The one that is a number is the block
fn conv_app(a: &ApplicationMessage) -> MApp {
	let text = format!("{a:?}");
	let inner = text
		.split_once('{')
		.and_then(|(_, rest)| rest.rsplit_once('}'))
		.map_or("", |(inner, _)| inner);
	let values = || inner.split(',').filter_map(|f| Some(f.split_once(':')?.1.trim()));
	MApp {
		application: Some(
			values().find(|v| v.parse::<u64>().is_err()).unwrap_or_default().to_owned(),
		),
		block: values().find_map(|v| v.parse().ok()).unwrap_or(u64::MAX),
	}
}

fn conv_error(e: &ApplicationErrorMessage) -> MErr {
	match e {
		ApplicationErrorMessage::DynamicError(r) => MErr::Dynamic(Box::new(conv_record(r))),
		ApplicationErrorMessage::ManufacturerSpecific(c, d) => MErr::Manufacturer(*c, d.clone()),
		other => MErr::Named(format!("{other:?}")),
	}
}

pub fn conv_msg(m: &MBusMessage) -> MMsg {
	use MBusMessage as B;
	match m {
		B::ApplicationReset(h) => MMsg::Reset(conv_header(h)),
		B::ApplicationSelect(h, a) => MMsg::Select(conv_header(h), conv_app(a)),
		B::SelectedApplicationRequest(h) => MMsg::SelectedRequest(conv_header(h)),
		B::SelectedApplicationResponse(h, a) => {
			MMsg::SelectedResponse(conv_header(h), conv_app(a))
		}
		B::SelectionOfDevice(d) => MMsg::SelectDevice(d.clone()),
		B::SetBaudRate(r) => MMsg::Baud(format!("{r:?}")),
		B::SynchroniseAction => MMsg::Sync,
		B::TimeAdjustmentToDevice(h, d) => MMsg::TimeAdjust(conv_header(h), d.clone()),
		B::TimeSyncToDevice(h, d) => MMsg::TimeSync(conv_header(h), d.clone()),
		B::AlarmFromDevice(h, d) => MMsg::Alarm(conv_header(h), d.clone()),
		B::ApplicationErrorFromDevice(h, e) => MMsg::Error(conv_header(h), conv_error(e)),
		B::CommandToDevice(h, d) => MMsg::Command(conv_header(h), d.clone()),
		B::ResponseFromDevice(h, f) => MMsg::Response(conv_header(h), conv_frame(f)),
		B::AuthenticationAndFrgamentation(d) => MMsg::Afl(d.clone()),
		B::Dlms(c, h, d) => MMsg::Dlms(*c, conv_header(h), d.clone()),
		B::ImageTransfer(c, h, d) => MMsg::Image(*c, conv_header(h), d.clone()),
		B::ManufacturerSpecific(c, d) => MMsg::Manufacturer(*c, d.clone()),
		B::SecurityTransfer(c, h, d) => MMsg::SecurityTransfer(*c, conv_header(h), d.clone()),
		B::SpecificUsage(c, h, d) => MMsg::Specific(*c, conv_header(h), d.clone()),
		B::Wireless(c, h) => MMsg::Wireless(*c, conv_header(h)),
		other => MMsg::Other(format!("{other:?}")),
	}
}

pub fn conv_frame(f: &Frame) -> MFrame {
	MFrame {
		records: f.records.iter().map(conv_record).collect(),
		more: f.more_data_follows,
		manufacturer: f.manufacturer_specific.clone(),
	}
}

pub fn conv_record(r: &Record) -> MRecord {
	MRecord {
		raw: format!("{:?}", r.dib.raw_type),
		function: format!("{:?}", r.dib.function),
		storage: r.dib.storage.into(),
		tariff: r.dib.tariff.into(),
		device: r.dib.device.into(),
		obis: r.dib.is_obis,
		unit: match &r.vib.value_type {
			ValueType::PlainText(t) => MUnit::Text(t.clone()),
			other => MUnit::Named(format!("{other:?}")),
		},
		vifes: r.vib.extra_vifes.clone(),
		data: conv_data(&r.data),
	}
}

pub fn conv_data(d: &DataType) -> MData {
	match d {
		DataType::Unsigned(v) => MData::Unsigned(*v),
		DataType::Signed(v) => MData::Signed(*v),
		DataType::Real(v) => MData::Real(v.to_bits()),
		DataType::DateTimeF(v) => conv_f(v),
		DataType::DateTimeI(v) => conv_i(v),
		DataType::Date(v) => conv_g(v),
		DataType::Time(v) => conv_j(v),
		DataType::DST(v) => conv_k(v),
		DataType::String(s) => MData::Text(s.clone()),
		DataType::ErrorValue(s) => MData::Error(s.clone()),
		DataType::VariableLengthNumber(v) => MData::Big(v.clone()),
		DataType::None => MData::None,
		other => MData::Other(format!("{other:?}")),
	}
}

use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};

pub fn conv_f(v: &TypeFDateTime) -> MData {
	MData::F {
		minute: v.minute,
		hour: v.hour,
		day: v.day,
		month: v.month,
		year: v.year,
		century: v.hundred_year,
		dst: v.in_dst,
	}
}

pub fn conv_g(v: &TypeGDate) -> MData {
	MData::G {
		day: v.day,
		month: v.month,
		year: v.year,
	}
}

pub fn conv_i(v: &TypeIDateTime) -> MData {
	MData::I {
		second: v.second,
		minute: v.minute,
		hour: v.hour,
		day: v.day,
		month: v.month,
		year: v.year,
		weekday: v.day_of_week,
		week: v.week,
		dst: v.in_dst,
		leap: v.leap_year,
		offset: v.dst_offset,
	}
}

pub fn conv_j(v: &TypeJTime) -> MData {
	MData::J {
		second: v.second,
		minute: v.minute,
		hour: v.hour,
	}
}

pub fn conv_k(v: &TypeKDST) -> MData {
	MData::K {
		hour: v.starts_hour,
		start_day: v.starts_day,
		start_month: v.starts_month,
		end_day: v.ends_day,
		end_month: v.ends_month,
		enable: v.enable,
		deviation: v.dst_deviation,
		local: v.local_deviation,
	}
}
