//! Code tables, transcribed from EN 13757-2/-3/-7 as number ranges (and, for the
//! product names, from the list libmbus has). Independent of the `vif!` macro.

use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Table {
	Primary,
	Fd,
	FdFd,
	Fb,
}

const NN: [&str; 4] = ["Seconds", "Minutes", "Hours", "Days"];
const PP: [&str; 4] = ["Hours", "Days", "Months", "Years"];

/// `first..=last`, name before the exponent, exponent of the first code
type Scaled = (u8, u8, &'static str, i32);

const PRIMARY_SCALED: &[Scaled] = &[
	(0x00, 0x07, "Energy(Wh, ", -3),
	(0x08, 0x0F, "Energy(J, ", 0),
	(0x10, 0x17, "Volume(M3, ", -6),
	(0x18, 0x1F, "Mass(Kg, ", -3),
	(0x28, 0x2F, "Power(W, ", -3),
	(0x30, 0x37, "Power(Jph, ", 0),
	(0x38, 0x3F, "VolumeFlow(Hours, ", -6),
	(0x40, 0x47, "VolumeFlow(Minutes, ", -7),
	(0x48, 0x4F, "VolumeFlow(Seconds, ", -9),
	(0x50, 0x57, "MassFlow(Hours, ", -3),
	(0x58, 0x5B, "FlowTemperature(", -3),
	(0x5C, 0x5F, "ReturnTemperature(", -3),
	(0x60, 0x63, "TemperatureDifference(", -3),
	(0x64, 0x67, "ExternalTemperature(", -3),
	(0x68, 0x6B, "Pressure(", -3),
];

const PRIMARY_TIME: &[(u8, &str)] = &[
	(0x20, "OnTime"),
	(0x24, "OperatingTime"),
	(0x70, "AveragingDuration"),
	(0x74, "ActualityDuration"),
];

const PRIMARY_PLAIN: &[(u8, &str)] = &[
	(0x6C, "TypeGDate"),
	(0x6D, "VariableDateTime"),
	(0x6E, "HCA"),
	(0x78, "FabricationNumber"),
	(0x79, "EnhancedIdentification"),
	(0x7A, "Address"),
];

const FD_SCALED: &[Scaled] = &[
	(0x00, 0x03, "Credit(", -3),
	(0x04, 0x07, "Debit(", -3),
	(0x40, 0x4F, "Volts(", -9),
	(0x50, 0x5F, "Amperes(", -12),
];

const FD_TIME: &[(u8, &str)] = &[
	(0x24, "StorageInterval"),
	(0x2C, "DurationSinceLastReadout"),
	(0x34, "PeriodOfTarrif"),
	(0x3C, "PeriodOfNominalDataTransmissions"),
];

const FD_LONG_TIME: &[(u8, &str)] = &[
	(0x68, "DurationSinceLastCumulation"),
	(0x6C, "OperatingTimeBattery"),
];

const FD_PLAIN: &[(u8, &str)] = &[
	(0x08, "UniqueMessageIdentification"),
	(0x09, "DeviceType"),
	(0x0A, "Manufacturer"),
	(0x0B, "ParameterSetIdentification"),
	(0x0C, "ModelVersion"),
	(0x0D, "HardwareVersionNumber"),
	(0x0E, "MetrologyFirmwareVersionNumber"),
	(0x0F, "OtherSoftwareVersionNumber"),
	(0x10, "CustomerLocation"),
	(0x11, "Customer"),
	(0x12, "AccessCodeUser"),
	(0x13, "AccessCodeOperator"),
	(0x14, "AccessCodeSystemOperator"),
	(0x15, "AccessCodeDeveloper"),
	(0x16, "Password"),
	(0x17, "ErrorFlags"),
	(0x18, "ErrorMask"),
	(0x19, "SecurityKey"),
	(0x1A, "DigitalOutput"),
	(0x1B, "DigitalInput"),
	(0x1C, "BaudRate"),
	(0x1D, "ResponseDelayTime"),
	(0x1E, "Retry"),
	(0x1F, "RemoteControl"),
	(0x20, "FirstStorageNumberForCyclicStorage"),
	(0x21, "LastStorageNumberForCyclicStorage"),
	(0x22, "SizeOfStorageBlock"),
	(0x23, "DescriptorForTariffAndSubunit"),
	(0x28, "StorageInterval(Months)"),
	(0x29, "StorageInterval(Years)"),
	(0x2A, "OperatorSpecific"),
	(0x2B, "TimePointSecond"),
	(0x30, "StartDateTimeOfTariff"),
	(0x31, "DurationOfTariff(Minutes)"),
	(0x32, "DurationOfTariff(Hours)"),
	(0x33, "DurationOfTariff(Days)"),
	(0x38, "PeriodOfTarrif(Months)"),
	(0x39, "PeriodOfTarrif(Years)"),
	(0x3A, "Dimensionless"),
	(0x3B, "WirelessContainer"),
	(0x60, "ResetCounter"),
	(0x61, "CumulationCounter"),
	(0x62, "ControlSignal"),
	(0x63, "DayOfWeek"),
	(0x64, "WeekNumber"),
	(0x65, "TimePointOfDayChange"),
	(0x66, "StateOfParameterActivation"),
	(0x67, "SpecialSupplierInformation"),
	(0x70, "DateAndTimeOfBatteryChange"),
	(0x71, "RFLevel"),
	(0x72, "DSTTypeK"),
	(0x73, "ListeningWindowManagement"),
	(0x74, "RemainingBatteryLife(Days)"),
	(0x75, "NumberTimesMeterStopped"),
	(0x76, "ManufacturerSpecificContainer"),
];

const FDFD_PLAIN: &[(u8, &str)] = &[
	(0x00, "CurrentlySelectedApplication"),
	(0x02, "RemainingBatteryLife(Months)"),
	(0x03, "RemainingBatteryLife(Years)"),
];

const FB_SCALED: &[Scaled] = &[
	(0x00, 0x01, "Energy(MWh, ", -1),
	(0x02, 0x03, "ReactiveEnergy(", 0),
	(0x04, 0x05, "ApparentEnergy(", 0),
	(0x08, 0x09, "Energy(GJ, ", -1),
	(0x0C, 0x0F, "Energy(MCal, ", -1),
	(0x10, 0x11, "Volume(M3, ", 2),
	(0x14, 0x17, "ReactivePower(", -3),
	(0x18, 0x19, "Mass(T, ", 2),
	(0x1A, 0x1B, "RelativeHumidity(", -1),
	(0x20, 0x20, "Volume(Feet3, ", 0),
	(0x21, 0x21, "Volume(Feet3, ", -1),
	(0x28, 0x29, "Power(MW, ", -1),
	(0x2C, 0x2F, "Frequency(", -3),
	(0x30, 0x31, "Power(GJph, ", -1),
	(0x34, 0x37, "ApparentPower(", -1),
	(0x74, 0x77, "ColdWarmTemperatureLimit(", -3),
	(0x78, 0x7F, "CumulativeMaxOfActivePower(", -3),
];

const FB_PLAIN: &[(u8, &str)] = &[
	(0x2A, "PhaseUU"),
	(0x2B, "PhaseUI"),
	(0x68, "ResultingPowerFactorK"),
	(0x69, "ThermalOutputRatingFactorKq"),
	(0x6A, "ThermalCouplingRatingFactorOverallKc"),
	(0x6B, "ThermalCouplingRatingFactorRoomSideKcr"),
	(0x6C, "ThermalCouplingRatingFactorHeaterSideKch"),
	(0x6D, "LowTemperatureRatingFactorKt"),
	(0x6E, "DisplayOutputScalingFactorKD"),
];

const FB_RETIRED: &[(u8, u8)] = &[(0x22, 0x26), (0x58, 0x67), (0x70, 0x73)];

fn build(table: Table) -> Vec<String> {
	let label = match table {
		Table::Primary => "Table10",
		Table::Fd => "Table12",
		Table::FdFd => "Table13",
		Table::Fb => "Table14",
	};
	let mut out: Vec<String> = (0..128)
		.map(|c| format!("ReservedCode({label}, {c})"))
		.collect();
	let scaled = match table {
		Table::Primary => PRIMARY_SCALED,
		Table::Fd => FD_SCALED,
		Table::FdFd => &[],
		Table::Fb => FB_SCALED,
	};
	for (lo, hi, name, exp) in scaled {
		for c in *lo..=*hi {
			out[c as usize] = format!("{name}{})", exp + i32::from(c - lo));
		}
	}
	let plain = match table {
		Table::Primary => PRIMARY_PLAIN,
		Table::Fd => FD_PLAIN,
		Table::FdFd => FDFD_PLAIN,
		Table::Fb => FB_PLAIN,
	};
	for (c, name) in plain {
		out[*c as usize] = (*name).to_owned();
	}
	let (time, long): (&[(u8, &str)], &[(u8, &str)]) = match table {
		Table::Primary => (PRIMARY_TIME, &[]),
		Table::Fd => (FD_TIME, FD_LONG_TIME),
		_ => (&[], &[]),
	};
	for (first, name) in time {
		for (i, unit) in NN.iter().enumerate() {
			out[*first as usize + i] = format!("{name}({unit})");
		}
	}
	for (first, name) in long {
		for (i, unit) in PP.iter().enumerate() {
			out[*first as usize + i] = format!("{name}({unit})");
		}
	}
	if table == Table::Fb {
		for (lo, hi) in FB_RETIRED {
			for c in *lo..=*hi {
				out[c as usize] = format!("RetiredCode({label}, {c})");
			}
		}
	}
	out
}

/// How the library prints the quantity with this code
pub fn quantity(table: Table, code: u8) -> &'static str {
	static ALL: OnceLock<[Vec<String>; 4]> = OnceLock::new();
	let all = ALL.get_or_init(|| {
		[
			build(Table::Primary),
			build(Table::Fd),
			build(Table::FdFd),
			build(Table::Fb),
		]
	});
	&all[table as usize][code as usize & 0x7F]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign {
	Signed,
	Unsigned,
	Open,
}

/// Whether a binary value of this quantity is unsigned (type C) or signed (type B)
pub fn sign(table: Table, code: u8) -> Sign {
	match (table, code) {
		// bit fields, and entries the standard does not give one type for
		(Table::Fd, 0x14 | 0x17 | 0x1A | 0x1B | 0x1F | 0x6C..=0x6F) => Sign::Open,
		(Table::Fd, 0x08..=0x13 | 0x15 | 0x16 | 0x18 | 0x19 | 0x1C | 0x1D) => Sign::Unsigned,
		(Table::Fd, 0x20..=0x23 | 0x2B | 0x2C..=0x2F | 0x31..=0x39 | 0x3C..=0x3F) => {
			Sign::Unsigned
		}
		(Table::Fd, 0x63 | 0x64 | 0x66 | 0x67 | 0x68..=0x6B | 0x74 | 0x75) => Sign::Unsigned,
		(Table::FdFd, 0x02 | 0x03) => Sign::Unsigned,
		(Table::Fb, 0x1A | 0x1B | 0x68..=0x6C) => Sign::Unsigned,
		_ => Sign::Signed,
	}
}

/// Device type byte
pub fn device_type(v: u8) -> &'static str {
	match v {
		0x00 => "Other",
		0x01 => "OilMeter",
		0x02 => "ElectricityMeter",
		0x03 => "GasMeter",
		0x04 => "ThermalEnergyMeter(OutletHeat)",
		0x05 => "SteamMeter",
		0x06 => "WaterMeter(Warm)",
		0x07 => "WaterMeter(Potable)",
		0x08 => "HeatCostAllocator",
		0x09 => "CompressedAir",
		0x0A => "ThermalEnergyMeter(OutletCooling)",
		0x0B => "ThermalEnergyMeter(InletCooling)",
		0x0C => "ThermalEnergyMeter(InletHeat)",
		0x0D => "ThermalEnergyMeter(Combined)",
		0x0E => "BusOrSystemComponent",
		0x0F => "Unknown",
		0x10 => "WaterMeter(Irrigation)",
		0x11 => "WaterDataLogger",
		0x12 => "GasDataLogger",
		0x13 => "GasConverter",
		0x14 => "CalorificValue",
		0x15 => "WaterMeter(Hot)",
		0x16 => "WaterMeter(Cold)",
		0x17 => "WaterMeter(DualRegister)",
		0x18 => "PressureMeter",
		0x19 => "ADConverter",
		0x1A => "SmokeDetector",
		0x1B => "RoomSensor",
		0x1C => "GasDetector",
		0x1D | 0x1E | 0x1F => "ReservedSensor",
		0x20 => "ElectricalBreaker",
		0x21 => "Valve",
		0x22 | 0x23 | 0x24 => "ReservedSwitchingDevice",
		0x25 => "CustomerUnit",
		0x26 | 0x27 => "ReservedCustomerUnit",
		0x28 => "WaterMeter(Waste)",
		0x29 => "Garbage",
		0x2A => "ReservedCO2",
		0x2B | 0x2C | 0x2D | 0x2E | 0x2F => "ReservedEnvironmental",
		0x30 => "ServiceTool",
		0x31 => "CommunicationController",
		0x32 => "UnidirectionalRepeater",
		0x33 => "BidirectionalRepeater",
		0x34 | 0x35 => "ReservedSystemDevice",
		0x36 => "RadioConverterSystemSide",
		0x37 => "RadioConverterMeterSide",
		0x38 => "BusConverterMeterSide",
		0x39 | 0x3A | 0x3B | 0x3C | 0x3D | 0x3E | 0x3F => "ReservedSystemDevice",
		0xFF => "Wildcard",
		_ => "Reserved",
	}
}

/// Manufacturer, first and last version, device type byte (or any), product
pub type Product = (&'static str, u8, u8, Option<u8>, &'static str);

pub const PRODUCTS: &[Product] = &[
	("ABB", 0x02, 0x02, None, "ABB Delta-Meter"),
	("ABB", 0x20, 0x20, None, "ABB B21 113-100"),
	("ACW", 0x09, 0x09, None, "Itron CF Echo 2"),
	("ACW", 0x0A, 0x0A, None, "Itron CF 51"),
	("ACW", 0x0B, 0x0B, None, "Itron CF 55"),
	("ACW", 0x0E, 0x0E, None, "Itron BM +m"),
	("ACW", 0x0F, 0x0F, None, "Itron CF 800"),
	("ACW", 0x14, 0x14, None, "Itron CYBLE M-Bus 1.4"),
	("AMT", 0x00, 0x3F, None, "Aquametro AMTRON"),
	("AMT", 0x40, 0x7F, None, "Aquametro SAPHIR"),
	("AMT", 0x80, 0xBF, None, "Aquametro CALEC MB"),
	("AMT", 0xC0, 0xFF, None, "Aquametro CALEC ST"),
	("BEC", 0x00, 0x00, Some(0x02), "Berg DCMi"),
	("BEC", 0x07, 0x07, Some(0x02), "Berg BLMi"),
	("BEC", 0x71, 0x71, Some(0x0F), "Berg BMB-10S0"),
	("EFE", 0x00, 0x00, Some(0x06), "Engelmann WaterStar"),
	("EFE", 0x00, 0x00, None, "Engelmann / Elster SensoStar 2"),
	("EFE", 0x01, 0x01, None, "Engelmann SensoStar 2C"),
	("ELS", 0x02, 0x02, None, "Elster TMP-A"),
	("ELS", 0x0A, 0x0A, None, "Elster Falcon"),
	("ELS", 0x2F, 0x2F, None, "Elster F96 Plus"),
	("ELV", 20, 29, None, "Elvaco CMa10"),
	("ELV", 50, 59, None, "Elvaco CMa11"),
	("EMH", 0x00, 0x00, None, "EMH DIZ"),
	("EMU", 0x10, 0x10, Some(0x02), "EMU Professional 3/75 M-Bus"),
	("GAV", 0x2D, 0x30, Some(0x02), "Carlo Gavazzi EM24"),
	("GAV", 0x39, 0x3A, Some(0x02), "Carlo Gavazzi EM21"),
	("GAV", 0x40, 0x40, Some(0x02), "Carlo Gavazzi EM33"),
	("GMC", 0xE6, 0xE6, None, "GMC-I A230 EMMOD 206"),
	("HYD", 0x28, 0x28, None, "ABB F95 Typ US770"),
	("HYD", 0x2F, 0x2F, None, "Hydrometer Sharky 775"),
	("JAN", 0x09, 0x09, Some(0x02), "Janitza UMG 96S"),
	("KAM", 0x01, 0x01, None, "Kamstrup 382 (6850-005)"),
	("KAM", 0x08, 0x08, None, "Kamstrup Multical 601"),
	("LSE", 0x99, 0x99, None, "Siemens WFH21"),
	("LUG", 0x02, 0x02, None, "Landis & Gyr Ultraheat 2WR5"),
	("LUG", 0x03, 0x03, None, "Landis & Gyr Ultraheat 2WR6"),
	("LUG", 0x04, 0x04, None, "Landis & Gyr Ultraheat UH50"),
	("LUG", 0x07, 0x07, None, "Landis & Gyr Ultraheat T230"),
	("NZR", 0x01, 0x01, None, "NZR DHZ 5/63"),
	("NZR", 0x50, 0x50, None, "NZR IC-M2"),
	("RAM", 0x03, 0x03, None, "Rossweiner ETK/ETW Modularis"),
	("REL", 0x08, 0x08, None, "Relay PadPuls M1"),
	("REL", 0x12, 0x12, None, "Relay PadPuls M4"),
	("REL", 0x20, 0x20, None, "Relay Padin 4"),
	("REL", 0x30, 0x30, None, "Relay AnDi 4"),
	("REL", 0x40, 0x40, None, "Relay PadPuls M2"),
	("RKE", 0x69, 0x69, None, "Ista sensonic II mbus"),
	("SBC", 0x10, 0x10, None, "Saia-Burgess ALE3"),
	("SBC", 0x19, 0x19, None, "Saia-Burgess ALE3"),
	("SBC", 0x11, 0x11, None, "Saia-Burgess AWD3"),
	("SEN", 0x08, 0x08, None, "Sensus PolluCom E"),
	("SEN", 0x19, 0x19, None, "Sensus PolluCom E"),
	("SEN", 0x0B, 0x0B, None, "Sensus PolluTherm"),
	("SEN", 0x0E, 0x0E, None, "Sensus PolluStat E"),
	("SEO", 0x30, 0x30, None, "Sensoco PT100"),
	("SEO", 0x41, 0x41, None, "Sensoco 2-NTC"),
	("SEO", 0x45, 0x45, None, "Sensoco Laser Light"),
	("SEO", 0x48, 0x48, None, "Sensoco ADIO"),
	("SEO", 0x51, 0x51, None, "Sensoco THU"),
	("SEO", 0x61, 0x61, None, "Sensoco THU"),
	("SEO", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	("GTE", 0x30, 0x30, None, "Sensoco PT100"),
	("GTE", 0x41, 0x41, None, "Sensoco 2-NTC"),
	("GTE", 0x45, 0x45, None, "Sensoco Laser Light"),
	("GTE", 0x48, 0x48, None, "Sensoco ADIO"),
	("GTE", 0x51, 0x51, None, "Sensoco THU"),
	("GTE", 0x61, 0x61, None, "Sensoco THU"),
	("GTE", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	("SLB", 0x02, 0x02, None, "Allmess Megacontrol CF-50"),
	("SLB", 0x06, 0x06, None, "CF Compact / Integral MK MaXX"),
	("SON", 0x0D, 0x0D, None, "Sontex Supercal 531"),
	("SPX", 0x31, 0x31, None, "Sensus PolluTherm"),
	("SPX", 0x34, 0x34, None, "Sensus PolluTherm"),
	("SVM", 0x08, 0x08, None, "Elster F2 / Deltamess F2"),
	("SVM", 0x09, 0x09, None, "Elster F4 / Kamstrup SVM F22"),
	("TCH", 0x26, 0x26, None, "Techem m-bus S"),
	("TCH", 0x40, 0x40, None, "Techem ultra S3"),
	("WZG", 0x03, 0x03, None, "Modularis ETW-EAX"),
	("ZRM", 0x81, 0x81, None, "Minol Minocal C2"),
	("ZRM", 0x82, 0x82, None, "Minol Minocal WR3"),
];

/// The product of a meter. `id_top` is the most significant (last) identification
/// byte, which three manufacturers use instead of the version.
pub fn product(manufacturer: &str, id_top: u8, version: u8, device: u8) -> Option<&'static str> {
	let version = match manufacturer {
		"SBC" | "SEO" | "GTE" => id_top,
		_ => version,
	};
	PRODUCTS
		.iter()
		.find(|(m, lo, hi, d, _)| {
			*m == manufacturer
				&& *lo <= version
				&& version <= *hi
				&& d.is_none_or(|d| d == device)
		})
		.map(|p| p.4)
}

pub fn manufacturers() -> Vec<&'static str> {
	let mut out: Vec<&'static str> = PRODUCTS.iter().map(|p| p.0).collect();
	out.sort_unstable();
	out.dedup();
	out
}

/// The code of three capital letters
pub fn pack_manufacturer(m: &str) -> u16 {
	m.bytes()
		.fold(0u16, |acc, c| acc * 32 + u16::from(c - b'A' + 1))
}

/// The letters of a code, if its low 15 bits are three letters
pub fn unpack_manufacturer(code: u16) -> Option<String> {
	let mut rest = code % 0x8000;
	let mut out = Vec::new();
	for weight in [1024u16, 32, 1] {
		let n = rest / weight;
		rest %= weight;
		if n == 0 || n > 26 {
			return None;
		}
		out.push((b'A' + (n as u8 - 1)) as char);
	}
	Some(out.into_iter().collect())
}

pub const APPLICATIONS: [&str; 16] = [
	"All",
	"UserData",
	"SimpleBilling",
	"EnhancedBilling",
	"MultiTariffBilling",
	"InstantaneousValues",
	"LoadProfileValuesForManagement",
	"StaticContent",
	"InstallationAndStartup",
	"Testing",
	"Calibration",
	"Manufacturing",
	"Development",
	"SelfTest",
	"ConfigurationData",
	"UserDefinedData",
];

pub fn application_error(code: u8) -> Option<&'static str> {
	Some(match code {
		0x00 => "Unspecified",
		0x01 => "CIFieldError",
		0x02 => "BufferOverflow",
		0x03 => "RecordOverflow",
		0x04 => "RecordError",
		0x05 => "DIFEOverflow",
		0x06 => "VIFEOverflow",
		0x08 => "ApplicationBusy",
		0x09 => "CreditOverflow",
		0x11 => "NoFunction",
		0x12 => "DataError",
		0x13 => "RoutingOrRelayingError",
		0x14 => "AccessViolation",
		0x15 => "ParameterError",
		0x16 => "SizeError",
		0x20 => "SecurityError",
		0x21 => "SecurityMechanismNotSupported",
		0x22 => "InadequateSecurityMethod",
		_ => return None,
	})
}

pub const BAUD: [&str; 8] = [
	"Rate300",
	"Rate600",
	"Rate1200",
	"Rate2400",
	"Rate4800",
	"Rate9600",
	"Rate19200",
	"Rate38400",
];

/// (control function with the FCV bit set?, function code) of the primary station
pub const PRIMARY: &[(bool, u8, &str)] = &[
	(false, 0, "ResetRemoteLink"),
	(false, 1, "ResetUserProcess"),
	(true, 3, "SendUserDataConfirmed"),
	(false, 4, "SendUserDataUnconfirmed"),
	(false, 8, "RequestAccessDemand"),
	(false, 9, "RequestLinkStatus"),
	(true, 10, "RequestUserData1"),
	(true, 11, "RequestUserData2"),
];

pub const SECONDARY: &[(u8, &str)] = &[
	(0, "ACK"),
	(1, "NACK"),
	(8, "UserData"),
	(9, "UserDataUnavailable"),
	(11, "Status"),
	(14, "LinkNotFunctioning"),
	(15, "LinkNotImplemented"),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
	None,
	Short,
	Long,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	ResetOrSelect,
	SelectedRequest,
	SelectedResponse,
	SelectDevice,
	Baud,
	Sync,
	TimeAdjust,
	TimeSync,
	Alarm,
	Error,
	Command,
	Response,
	Afl,
	Dlms,
	Image,
	Manufacturer,
	SecurityTransfer,
	Specific,
	Wireless,
}

/// What a CI byte announces; None if it is reserved or not implemented
pub fn ci(ci: u8) -> Option<(Kind, Form)> {
	use Form::{Long, None as No, Short};
	use Kind::*;
	Some(match ci {
		0x00..=0x1F => (Dlms, No),
		0x50 => (ResetOrSelect, No),
		0x51 => (Command, No),
		0x52 => (SelectDevice, No),
		0x53 => (ResetOrSelect, Long),
		0x54 => (SelectedRequest, No),
		0x55 => (SelectedRequest, Long),
		0x5A => (Command, Short),
		0x5B => (Command, Long),
		0x5C => (Sync, No),
		0x5F => (Specific, Long),
		0x60 => (Dlms, Long),
		0x61 => (Dlms, Short),
		0x66 => (SelectedResponse, No),
		0x67 => (SelectedResponse, Short),
		0x68 => (SelectedResponse, Long),
		0x6C => (TimeSync, Long),
		0x6D => (TimeAdjust, Long),
		0x6E => (Error, Short),
		0x6F => (Error, Long),
		0x70 => (Error, No),
		0x71 => (Alarm, No),
		0x72 => (Response, Long),
		0x74 => (Alarm, Short),
		0x75 => (Alarm, Long),
		0x78 => (Response, No),
		0x7A => (Response, Short),
		0x7C => (Dlms, Long),
		0x7D => (Dlms, Short),
		0x80 => (Wireless, Long),
		0x81 => (Wireless, No),
		0x82 => (Wireless, Long),
		0x83 => (Wireless, No),
		0x86 => (Wireless, No),
		0x87 => (Wireless, Long),
		0x88 => (Wireless, Short),
		0x89 => (Wireless, No),
		0x8A => (Wireless, Short),
		0x8B => (Wireless, Long),
		0x8C..=0x8F => (Wireless, No),
		0x90 => (Afl, No),
		0x9E => (Specific, Short),
		0x9F => (Specific, Long),
		0xA0..=0xB7 => (Manufacturer, No),
		0xB8..=0xBF => (Baud, No),
		0xC0 => (Image, Long),
		0xC1 => (Image, Short),
		0xC2 => (Image, Long),
		0xC3 => (SecurityTransfer, Long),
		0xC4 => (SecurityTransfer, Short),
		0xC5 => (SecurityTransfer, Long),
		// format frames, compact frames, OBIS/SMI, transport layer messages,
		// reserved codes
		_ => return None,
	})
}

/// All CI bytes that carry a message of this kind
pub fn cis(want: impl Fn(Kind, Form) -> bool) -> Vec<u8> {
	(0..=255u8)
		.filter(|c| ci(*c).is_some_and(|(k, f)| want(k, f)))
		.collect()
}
