#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long text stays reviewable)."""
import json, os
LL='src/parse/link_layer.rs'; CI='src/parse/transport_layer/control_info.rs'; HD='src/parse/transport_layer/header.rs'
MF='src/parse/transport_layer/manufacturer.rs'; AP='src/parse/application_layer/application.rs'; FR='src/parse/application_layer/frame.rs'
RE='src/parse/application_layer/record.rs'; DI='src/parse/application_layer/dib.rs'; VI='src/parse/application_layer/vib.rs'
NU='src/parse/types/number.rs'; DA='src/parse/types/date.rs'; ST='src/parse/types/string.rs'; ER='src/parse/error.rs'
LIB='src/lib.rs'; BIN='src/bin/test_parse.rs'; MA='libmbus_macros/src/lib.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qtext},why_tests_cant=why,anchors=a))

p('C01','No input makes the decoder panic',
 "For every byte string, of any length and content, decoding it as a packet, or as one of the parts a packet is made of (message, frame, record, date, number, text), returns either a value or an error. It never panics, aborts the process or overflows arithmetic, in builds with and without debug assertions. This includes messages of kinds the library does not support: they are reported as errors.",
 ['inputs','configurations'],'every byte string up to the longest frame (and beyond), in checked and unchecked builds',
 'The tests decode 70 well-formed recordings and a few hand-written values; the bus delivers arbitrary bytes, and the library has todo!/unreachable!/assert/arithmetic sites behind rare field values.',
 [LL,CI,HD,DI,RE,NU,DA,ST],[('verify/verify_map/Err instead of panicking','all parsers'),('length arithmetic',LL+' parse_variable'),('DIFE count limit',DI+' DataInfoBlock::parse'),('CI dispatch',CI+' MBusMessage::parse'),('security mode dispatch',HD+' SecurityMode::parse')],
 ['return of Packet::parse and of the public sub-parsers'])
p('C02','Exactly the well-formed frame envelopes are accepted',
 "A byte string is accepted as a packet only if it is the single byte E5, a 5-byte short frame 10 C A CS 16, or a long frame 68 L L 68 C A data CS 16 whose two length bytes agree, are at least 3 and equal the number of bytes between the second 68 and the checksum. Any other first byte, a wrong second marker, stop byte or length, a missing byte or an extra byte makes it rejected. Every envelope that meets these rules (with a right checksum and acceptable contents) is accepted for every length up to 255.",
 ['inputs'],'every byte string; every length byte 0..=255; every truncation and extension of a valid frame',
 'The test suite never decodes an ill-formed envelope at all, and only about 70 lengths of well-formed ones.',
 [LL],[('length byte and its confirmation',LL+' parse_variable'),('frame markers, stop byte, end of input',LL+' parse_variable, parse_fixed'),('alternative by first byte',LL+' Packet::parse')],['Ok/Err of Packet::parse'])
p('C03','Every single-byte corruption of a frame is rejected',
 "A short or long frame is accepted only if its checksum byte equals the sum modulo 256 of its control byte, address byte and all data bytes. Consequently, changing any one byte of an accepted frame to any other value always makes it rejected.",
 ['inputs','fault_sequences'],'every accepted frame, every byte position and every replacement value',
 'No test presents a corrupted frame; a checksum that skips one byte, or one that is not compared in some case, passes them all.',
 [LL],[('wrapping sum over control, address and data',LL+' parse_variable'),('short frame sum',LL+' parse_fixed')],['Ok/Err of Packet::parse'])
p('C04','Control byte and address decode to the right meaning in every frame',
 "For every control byte, a short or long frame reports the direction, the frame-count or access-demand bit, the flow-control bit and the service that EN 13757-2 / EN 60870-5-2 assign to it, with no two services reported alike; control bytes with the reserved top bit set or a reserved function/FCV combination are rejected. The address is reported unchanged for all 256 values.",
 ['inputs'],'all 256 control bytes x 256 addresses x short/long frames with arbitrary data',
 'Tests only check that recorded frames (control 08) parse; the decoded control and address are never compared with anything.',
 [LL],[('control bit fields and function tables',LL+' Control::parse')],['Packet::Short/Packet::Long control and address'])
p('C05','Each CI value yields its own message kind and keeps its payload intact',
 "For every CI byte the message is reported as the kind EN 13757-7 assigns to it and with the header form (none, short or long) the CI prescribes; reserved CI values and message kinds the library does not implement are rejected, never reported as a different kind. For kinds whose body is passed through uninterpreted, the reported bytes are exactly the bytes that followed the header, in order and complete, together with the CI byte where the kind spans several.",
 ['inputs'],'all 256 CI bytes, with every header form and bodies of every length and content',
 'The recordings use CI 72 only (one with 78); the other ~250 CI values are not exercised.',
 [CI],[('header form by CI',CI+' MBusMessage::parse'),('message kind by CI',CI+' MBusMessage::parse')],['Packet::Long message'])
p('C06','Transport header fields are reported exactly as transmitted',
 "In a long header the identification number is the value of its four little-endian BCD bytes, the manufacturer is the three letters packed in its two bytes, and version and device type are those of their bytes; in both long and short headers the access number and each status bit are those of their bytes. A header that is cut short, whose identification is not eight decimal digits, or whose manufacturer does not unpack to three capital letters is rejected.",
 ['inputs'],'every long and short header: all identifications, manufacturers, versions, device types, access numbers and status bytes',
 'Tests check that ~70 recorded headers parse, not what they decode to.',
 [HD,MF,NU],[('field order and widths',HD+' LongHeader::parse, ShortHeader::parse_raw'),('status bits',HD+' MeterStatus::parse'),('device type table',HD+' DeviceType::parse')],['TPLHeader in Packet::Long'])
p('C07','Encrypted messages are never decoded as if they were plain',
 "A message with a header is reported as unsecured only if its configuration field is entirely zero. If the security mode (the low five bits of the field's second byte) is one that EN 13757-7 defines as encrypted or manufacturer specific, or is 0 while other bits of the field are set, the packet is rejected; a reserved mode is reported as reserved together with the exact 16-bit field. This holds for every CI that carries a header.",
 ['inputs'],'all 65536 configuration fields, in short and long headers, under every CI that carries a header',
 'The recordings contain three distinct configuration fields.',
 [HD],[('configuration field split and mode table',HD+' SecurityMode::parse')],['configuration_field in TPLHeader; Ok/Err of Packet::parse'])
p('C08','Manufacturer codes and product names are resolved correctly',
 "Unpacking a 16-bit manufacturer code gives the three letters whose packing (A=1..Z=26, five bits each) is that code's low 15 bits. The product name reported for a meter depends only on manufacturer, version and device type (for SBC, SEO and GTE on the identification's last byte instead of the version): a listed combination gets the listed product, any other gets none.",
 ['inputs'],'all 65536 manufacturer codes; all manufacturer x version x device type combinations',
 'No test calls the unpacking or naming code with a known answer.',
 [MF,HD],[('packing and unpacking',MF+' unpack_manufacturer_code, pack_manufacturer_code'),('product table',MF+' device_name')],['manufacturer and device_name of LongHeader'])
p('C09','A frame is the exact sequence of its records, whatever surrounds them',
 "Decoding a response body made of any records in sequence yields exactly those records, each decoded as it would be alone, in order, with none lost, merged, duplicated or invented; idle filler bytes (2F) between records have no effect. The body ends at the end of data or at a 0F or 1F marker: all bytes after the marker are reported unchanged as manufacturer-specific data, and 'more data follows' is reported for 1F and for nothing else. A body cut anywhere inside a record is rejected.",
 ['inputs','histories'],'every sequence of records, every filler placement, every terminator and trailer, every cut point',
 'Recorded frames contain fixed sequences, and only the absence of errors is asserted, so losing, merging or misplacing records goes unnoticed.',
 [FR,RE],[('repeat until terminator',FR+' Frame::parse'),('record consumes its own bytes only',RE+' Record::parse')],['Frame.records, more_data_follows, manufacturer_specific'])
p('C10','Storage number, tariff, subunit and function are assembled exactly',
 "A record's storage number, tariff and subunit are the numbers whose binary digits are spread over the DIF and DIFE bytes as EN 13757-3 prescribes (storage: DIF bit 6, then four bits per DIFE; tariff: two bits per DIFE; subunit: one bit per DIFE; least significant first), for any chain of up to ten DIFEs; function and data field come from the DIF alone. A final all-zero DIFE marks the record as an OBIS register and changes nothing else; a longer chain, or a reserved data field, is rejected.",
 ['inputs'],'all DIF bytes x all chains of 0 to 12 DIFE bytes',
 'Values are never compared in tests; most recordings use no DIFE or one.',
 [DI],[('per-DIFE shift and accumulate',DI+' DataInfoBlock::parse'),('OBIS marker, chain limit',DI+' DataInfoBlock::parse')],['Record.dib'])
p('C11','Units and scaling are those of the value information field',
 "The quantity, unit and decimal exponent reported for a record are the ones EN 13757-3 assigns to its VIF, or to the VIFE following an FB, FD or FD FD extension code; reserved, retired, manufacturer-specific, 'any' and invalid codes are reported as such with their code. All further VIFE bytes are reported in order and unchanged (without their extension bit), none is taken from or given to the record's data, and an extension chain that runs out of data is rejected.",
 ['inputs'],'all VIF bytes, all extension codes of each table, all VIFE chains',
 'A wrong exponent or unit in one table row still parses; tests compare no units.',
 [VI,MA],[('code tables',VI+' parse_table_10/12/13/14'),('bit pattern macro',MA+' vif'),('extension chain',VI+' ValueInfoBlock::parse, dump_remaining_vifes')],['Record.vib'])
p('C12','BCD fields decode to the number they show, and bad digits are kept visible',
 "A BCD field of any supported width whose digits are all decimal decodes to exactly that integer, least significant byte first, negative when (and only when) the top nibble is F. A BCD field of a fixed width with any other non-decimal digit never becomes a number: it is reported as an error text showing every nibble in hexadecimal, most significant first, with a leading F shown as minus.",
 ['inputs'],'every nibble string of 1,2,3,4,6 bytes in records and 0..9 bytes in the number decoder',
 'Tests check about 40 single values; digit order, sign and fallback over all widths are not covered.',
 [NU,RE],[('nibble accumulation and sign',NU+' parse_bcd'),('fallback text',NU+' parse_invalid_bcd'),('choice between them',RE+' Record::parse')],['Record.data; parse_bcd; parse_invalid_bcd'])
p('C13','Binary and real values are exact at every width and sign',
 "A binary field of n bytes decodes to exactly the little-endian two's-complement integer it holds, or to the unsigned integer when the quantity is one EN 13757-3 defines as unsigned, over the full range of every width from 0 to 8 bytes; a real field decodes to exactly the IEEE-754 single whose bits it holds, including zeros of either sign, infinities and NaN. The same bytes always give the same number whether the width is given by the data field or by a variable-length prefix. A quantity says of itself that it is unsigned exactly if its binary values are decoded so, and that it is boolean exactly if it is a bit field (error flags, digital inputs and outputs, remote control).",
 ['inputs'],'every byte string of each width 0..8, for every signed and unsigned quantity',
 'Tests sweep 8 and 16 bit and sample 24..64 bits directly, but never 5 or 7 bytes, never through a record, and never the signed/unsigned choice.',
 [NU,RE,VI],[('sign extension and byte order',NU+' parse_binary_signed, parse_binary_unsigned, parse_real'),('signedness by quantity',VI+' ValueType::is_unsigned')],['Record.data'])
p('C14','Variable-length data has exactly the type and size its prefix states',
 "For a record with a variable-length data field, the prefix byte alone decides the kind (text, positive BCD, negative BCD, binary number, large number) and the number of bytes that belong to the value, as EN 13757-3 defines; exactly those bytes are consumed and the value is exact, including zero and empty values. Reserved prefixes, malformed BCD and values cut short are rejected.",
 ['inputs'],'all 256 prefix bytes with arbitrary following bytes',
 'The recordings use a handful of text prefixes; no test covers numbers, large numbers, zero or reserved prefixes.',
 [RE,NU,ST],[('prefix dispatch',RE+' Record::parse LVAR branch'),('large numbers',RE+' parse_giant_number')],['Record.data and the start of the next record'])
p('C15','Text is reported character for character in reading order',
 "A text value of n bytes is reported as exactly n characters, the transmitted bytes in reverse order, each decoded on its own as Latin-1 (windows-1252), whatever bytes they are. A plain-text unit is reported as its ASCII characters in reverse transmission order; one that is not valid text or is longer than the remaining data makes the record rejected.",
 ['inputs'],'every byte string of length 0..191 as text value and of length 0..255 as plain-text unit',
 'Tests never look at decoded text; some byte prefixes are special to text decoders.',
 [ST,VI],[('reversal and decoding',ST+' parse_latin1, parse_length_prefix_ascii')],['DataType::String, ValueType::PlainText'])
p('C16','Calendar dates (types F and G) decode to their fields or are rejected',
 "A two-byte date or four-byte date-and-time reports exactly the day, month, year, hour, minute, century and summer-time fields encoded in it, including the 'every' wildcards, with two-digit years 00 to 80 without century taken as 20xx. A value flagged invalid, with a reserved bit set, or with a field outside its range is never reported as a date: the packet is rejected.",
 ['inputs'],'all 65536 type G values; all type F values (sampled, every field value reached)',
 'About 20 fixed values are tested; bit positions of most fields could be swapped unnoticed.',
 [DA],[('bit layout and range checks',DA+' parse_dmy, TypeFDateTime::parse, TypeGDate::parse')],['Record.data'])
p('C17','Times and summer-time rules (types I, J, K) decode to their fields',
 "A six-byte date-and-time, three-byte time or four-byte summer-time rule reports exactly the fields encoded in it (second, minute, hour, day, month, year, weekday, week, leap year, summer time and its signed offset; start and end of summer time, enable flag, signed deviation and local deviation from GMT), each with the full range its bits can express within the permitted values. A value flagged invalid or with a field out of range is never reported as a time: it is rejected.",
 ['inputs'],'all 2^24 type J values (sampled in quick), type I and K values with every field value reached',
 'Types I and K have no test and do not occur in the recordings; type J has few.',
 [DA],[('bit layout and range checks',DA+' TypeIDateTime::parse, TypeJTime::parse, TypeKDST::parse')],['Record.data; TypeIDateTime/TypeJTime/TypeKDST::parse'])
p('C18','How data is interpreted follows from the DIF and VIF, and its size from the DIF',
 "For every combination of data field and value information the record's data has exactly the size the data field states (none, 1 to 4, 6 or 8 bytes, 4-byte real, BCD width, or prefix-defined), so that the next record starts right after it. A date or time type is used only when the data field has the size of that type (time point: 3 bytes J, 4 bytes F, 6 bytes I, variable M; date: 2 bytes G; summer time: 4 bytes K); with any other size the value information is reported invalid and the data decoded by the data field alone.",
 ['inputs'],'all data fields x all VIF codes and extension tables x arbitrary data, followed by another record',
 'Recordings contain only a few of the ~16 x 500 combinations.',
 [RE,DI,VI],[('size of the data field',DI+' RawDataType::parse'),('date type selection',RE+' handle_date_types'),('dispatch',RE+' Record::parse')],['Record.data, Record.vib, start of the following record'])
p('C19','Device error reports keep their meaning',
 "A device's application error message is reported with the condition EN 13757-3 assigns to its code, whatever header form it uses, and an empty one as unspecified; a manufacturer-specific code keeps its code and all following bytes, and a dynamic error carries the record that follows. Reserved codes are rejected.",
 ['inputs'],'all 256 error codes x three header forms x arbitrary following bytes',
 'The error recordings in the test data are not used by any test.',
 [AP,CI],[('code table',AP+' ApplicationErrorMessage::parse')],['MBusMessage::ApplicationErrorFromDevice'])
p('C20','Bus management commands decode to what was commanded',
 "An application reset, an application selection, a request for or report of the selected application, a baud-rate change and a synchronise action are each reported as such: a selection with no parameter is a reset, a one-byte parameter gives the application in its high nibble and block in its low nibble, the block number of a longer accepted parameter is the concatenation of its low nibbles, and each baud-rate CI gives its own rate. A report of the selected application without a parameter is rejected.",
 ['inputs'],'all command CIs, all one-byte parameters and parameters up to ten bytes, with every header form',
 'No test or recording contains any of these commands.',
 [AP,CI],[('selection nibbles',AP+' ApplicationMessage::parse'),('baud rates',CI+' MBusMessage::parse')],['MBusMessage variants'])
p('C21','Every rejection says what was wrong, from the detail to the layer',
 "Every packet the decoder rejects yields a non-empty report that lists the context from the innermost failing item outwards, one per line, each enclosing item indented one step deeper, preceded by the underlying cause if there is one. Its outermost item names the kind of frame being decoded (surplus bytes after a complete short frame or acknowledgement are the caller's to report). A failure inside a record or a header names that record or header. Where a single field is at fault - cut short, or holding a value it cannot have: a length, marker, control, address, checksum or stop byte, a CI or error code, a header field, a DIF, DIFE, VIF, unit text, a length prefix, a number, text or a date and the date's field - an item of the report names it. An error's list of items and its report have that form whatever items it was given.",
 ['inputs'],'every rejected byte string',
 'Tests check the innermost context of about 60 direct number and date failures, and no rendered report.',
 [ER,LL,FR,CI],[('context accumulation',ER+' add_context'),('rendering',ER+' Display for MBusError'),('labels','all parsers')],['Display of MBusError, MBusError::context'])
p('C22','The result depends only on the bytes, not on how they are supplied',
 "Decoding the same bytes any number of times, in any order relative to other inputs, from a plain slice, a byte-string view or a complete streaming buffer, gives the same result. When a frame is supplied through a streaming buffer, every proper prefix of an acceptable frame is reported as incomplete, never as a packet and never as malformed, and the whole is reported as in one-shot decoding.",
 ['inputs','histories'],'every frame, every prefix length, every supported input representation, every order of decoding',
 'All tests decode whole buffers through one representation.',
 [LL],[('generic input bounds',LL+' Packet::parse'),('bit-level parsing of the control byte',LL+' Control::parse')],['Result of Packet::parse on &[u8], &Bytes, Partial<&[u8]>'])
p('C23','Frame files are read back byte for byte',
 "Reading a .hex file yields exactly the bytes it spells, in order, for any upper or lower case two-digit spelling separated by single spaces and any surrounding whitespace; reading any other file yields its exact contents. A .hex file containing anything that is not a byte in hexadecimal, or a file that cannot be read, yields an error, never a shortened or altered byte string.",
 ['inputs'],'every byte string, every spelling of it, every malformed spelling',
 'It is used by the tests but never itself checked.',
 [LIB],[('hex splitting',LIB+' utils::read_test_file')],['Result of read_test_file'])
p('C24','The command-line decoder reports every file, in order, as the library does',
 "Given any list of readable frame files, the command-line tool names each file in order and prints for each exactly the packet, or the error report, that the library returns for its bytes. A file with a rejected packet does not prevent or alter the output for the files after it, and the tool ends successfully.",
 ['inputs','histories'],'every list of frame files, valid and invalid mixed',
 'The tool has no test.',
 [BIN,LIB],[('loop over arguments',BIN+' main')],['stdout, stderr and exit status of test_parse'])
p('C25','Decoding a well-formed packet gives back what was encoded',
 "For every packet that a conforming encoder can produce from message contents the library supports (any link fields, message kind, header, and sequence of records with any data type, storage, tariff, unit and qualifiers that fits in a frame), decoding the packet succeeds and every decoded field equals the encoded one. For every other byte string, including any mutation of such a packet or of the recorded meter frames, decoding agrees with an independent decoder in whether it is accepted and in every field.",
 ['inputs'],'every encodable message up to the frame limit; every byte string near one',
 'The recordings are a fixed set and their decoded contents are not compared with anything.',
 [LL,CI,HD,FR,RE,DI,VI,NU,DA,ST,AP],[('the whole decoder','Packet::parse')],['whole Packet'])
p('C26','Bit-pattern shorthand for value codes matches exactly the codes it spells',
 "A code pattern written in the standard's notation (E, three bits, then four places that are fixed bits followed by n or p for free ones) used in a match selects exactly those of the 128 code values whose fixed bits agree with the pattern, for every such pattern.",
 ['inputs','programs'],'all patterns of the notation x all code values',
 'The tests only compile the patterns used in the tables and do not check which values they select.',
 [MA],[('base and mask computation',MA+' vif')],['value set matched by vif!(..)'])
p('C27','The cost of decoding stays in proportion to the input',
 "Decoding any byte string, as a packet or as one of the parts a packet is made of, and rendering the report if it is rejected, takes a number of steps and an amount of memory that are bounded by a constant plus a constant multiple of the length of the input (and of the size asked for, for decoders that take one): no length, count or size in the data makes the decoder reserve memory or repeat work for bytes that are not there, and doubling an input made of a repeated pattern about doubles the cost instead of squaring it.",
 ['inputs'],'every byte string of any length, for the packet decoder and every public part decoder',
 'The tests decode frames of up to 255 bytes whose lengths are honest, and measure nothing.',
 [FR,RE,DI,VI,AP,CI,LL,NU,ST],[('repetition of records and fillers',FR+' Frame::parse'),('alternatives that parse the same bytes again',RE+' Record::parse'),('lengths taken from the data',RE+' LVAR; '+ST+' parse_length_prefix_ascii; '+LL+' parse_variable'),('chains',DI+' DataInfoBlock::parse; '+VI+' dump_remaining_vifes')],
 ['allocations, executed edges of the instrumented library, and processor time of the public decoders'])
p('C28','Every part of a packet takes exactly the bytes that are its own',
 "Each decoder of something that ends by itself (an acknowledgement, a short frame, a short or long header, a record, its data information, its value information and their single bytes and chains, a date or time, a number, a text with a given or prefixed length) takes from the front of its input exactly the bytes that make up that item and leaves all bytes after them, untouched, for the next decoder. Its result does not depend on what follows; it is the same if nothing follows; and the item is rejected if any of its bytes is missing. Items decoded one after another from one buffer therefore come out as they do alone.",
 ['inputs','histories'],'every item, every continuation after it, every truncation of it and every sequence of items',
 'The tests hand each decoder exactly its own bytes and never look at what it leaves.',
 [RE,DI,VI,HD,NU,DA,ST,LL],[('bit-level cursor returning to bytes',RE+' Record::parse'),('chains ended by the extension bit',DI+' DataInfoBlock::parse; '+VI+' dump_remaining_vifes'),('widths',NU+' parse_bcd, parse_binary_*; '+DA),('alternatives that go back',RE+' BCD or error value')],
 ['result and remaining input of the public part decoders; Packet::parse called repeatedly'])
p('C29','Each layer is exactly what the layers below it make of its parts, at any length',
 "Decoding something as a whole gives exactly what decoding its parts, each with the decoder of that part, gives on the same bytes: a long frame's message, a message's header and body, a body's records and manufacturer data, a record's data information, value information and data, in whatever message kind or place they occur. The whole is rejected exactly when one of its parts is, and its report then begins with that of the part. The layers above the link have no length limit of their own: bodies of any number of records and fillers, payloads and manufacturer-specific data of any size, and value information with any number of extensions are decoded completely, in order and without a change of meaning.",
 ['inputs'],'every packet, message, body and record, valid or not; bodies, payloads and chains of any length',
 'The tests call each decoder on inputs of its own and never compare one layer with another, nor decode anything longer than a recorded frame.',
 [LL,CI,HD,FR,RE,DI,VI,AP],[('hand-over from layer to layer',LL+' parse_variable; '+CI+' MBusMessage::parse'),('record loop',FR+' Frame::parse'),('choice of the value decoder',RE+' Record::parse'),('dynamic and manufacturer specific errors',AP+' ApplicationErrorMessage::parse')],
 ['results and reports of the public decoders of all layers on the same bytes'])
p('C30','Recorded telegrams mean what the reference implementation says they mean',
 "The telegrams recorded from real meters decode to the readings the reference implementation (rSCADA libmbus, on which the library is modelled) gives for them: identification, manufacturer, version, medium, product name, access number and status, and for each record its function, storage number, tariff, subunit, quantity, and value in its unit; the telegrams recorded as faulty are rejected and the recorded error reports carry the recorded error. This holds for the recorded parts in every other arrangement as well: records of any of these meters in any selection and order, behind the header of any of them; and for the recorded kinds of value with any other number, of any size and data field, in place of the recorded one.",
 ['inputs'],'every recorded telegram, every arrangement of recorded headers and records, every number under a recorded kind of value',
 'The tests decode the recordings only to see that they are accepted; what is recorded next to them as their meaning is compared with nothing.',
 [CI,HD,MF,DI,VI,RE,NU,DA,AP],[('quantity, unit and exponent of each value code',VI+' ValueInfoBlock::parse'),('storage, tariff and subunit',DI+' DataInfoBlock::parse'),('identification and product names',HD+' LongHeader::parse; '+MF+' device_name'),('numbers and dates',RE+' Record::parse')],
 ['whole Packet of recorded and rearranged telegrams'])
p('C31','The answer depends on the bytes, not on build, machine or surroundings',
 "For every byte string, decoding it, as a packet or as one of the parts a packet is made of, gives the same value or the same report, word for word, in optimised and unoptimised builds, with and without debug assertions and overflow checks, on machines of either byte order and of 32 or 64 bit words, and whatever the environment variables, locale, time zone, working directory and process it is decoded in. (Sizes a caller asks a decoder for that it is documented not to support are excepted.)",
 ['inputs','configurations'],'every byte string in every build configuration and environment',
 'The tests run in one build, on one machine, in one environment.',
 [LL,CI,HD,FR,RE,DI,VI,NU,DA,ST,AP,ER],[('arithmetic on wide numbers',DI+' DataInfoBlock::parse; '+NU),('sizes and lengths',LL+' parse_variable; '+RE+' LVAR; '+ST),('byte order of transmitted integers',NU+' parse_binary_*, parse_real; '+HD+' LongHeader::parse'),('reports',ER+' Display')],
 ['results and reports of the public decoders in builds with other profiles and targets'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
