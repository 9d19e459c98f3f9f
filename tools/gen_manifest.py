#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
home = pathlib.Path(__file__).parent.parent
T = {
 "C01": ("fuzzing with structured generators and mutation; crash oracle, in builds with and without runtime checks",
   "Searches for panics, aborts, overflows and non-termination in generated and mutated packets, payloads and parts, and in every DIF x VIF pair, every extension code and every CI. Not a proof: inputs outside the search are not covered."),
 "C02": ("enumeration of envelopes and mutation, against a reference acceptance rule",
   "All pairs of length bytes in six relations to the size, all strings of up to two and start-byte strings of three bytes; edits, cuts and extensions of generated packets."),
 "C03": ("metamorphic: every single-byte replacement of accepted packets must be rejected",
   "Every replacement value at each position of generated packets, every checksum value, compensated double changes."),
 "C04": ("exhaustive enumeration of control and address bytes against a reference table",
   "All 65536 control x address pairs in both kinds of frame; arbitrary messages around them."),
 "C05": ("enumeration of CI bytes with generated contents, against the reference encoder and decoder",
   "All 256 CI bytes with generated contents; every payload length; every cut of a header."),
 "C06": ("round trip from the reference encoder, and byte enumeration against the reference decoder",
   "Generated headers, every value of every header byte, every identification byte pair."),
 "C07": ("exhaustive enumeration of the configuration field against a reference rule",
   "All 65536 configuration fields under every CI with a header."),
 "C08": ("exhaustive enumeration of manufacturer, version and device type against reference tables",
   "All manufacturer codes; all version x device pairs of every manufacturer in the product table. The product table was transcribed from the pinned commit: it pins that text."),
 "C09": ("round trip of generated record sequences; metamorphic relations for fillers, markers, cuts and order",
   "Generated sequences; inserting fillers, appending markers, cutting and permuting records."),
 "C10": ("enumeration of DIF and DIFE chains, round trip of encoded numbers, against exact arithmetic",
   "Every DIF with chains of every length, all pairs of DIFEs, single bits at every place."),
 "C11": ("exhaustive enumeration of value information bytes against transcribed tables",
   "Every code of every table; all three-byte value information; generated chains and texts. Tables were transcribed from EN 13757-3 as the repository has it."),
 "C12": ("exhaustive enumeration of short BCD numbers, round trip of longer ones, against digit arithmetic",
   "All one-, two- and three-byte values; generated longer numbers and every kind of bad digit."),
 "C13": ("exhaustive enumeration of short integers, round trip of longer ones, against exact arithmetic",
   "All one-, two- and three-byte values, the first two under every unit; generated longer integers and reals."),
 "C14": ("enumeration of length prefixes with generated values, against the reference encoder and decoder",
   "All 256 prefixes at every distance from the end of a frame; generated values of each kind."),
 "C15": ("enumeration and generation of texts, against an independent windows-1252 table",
   "Every byte value and every pair; generated texts and plain text units."),
 "C16": ("enumeration of type F and G values against a bit-field reference",
   "All 65536 type G values; type F by exhaustive pairs of bytes and a seeded stride through 2^32 (all of it in the thorough tier)."),
 "C17": ("enumeration of type I, J and K values against a bit-field reference",
   "All 2^24 type J values; type K by a seeded stride through 2^32 (all of it in the thorough tier); type I by exhaustive pairs of bytes and generated values."),
 "C18": ("enumeration of data fields x units with generated data, against the reference encoder and decoder",
   "Every data field with every unit; dates by size; truncated data."),
 "C19": ("enumeration of error codes and header forms with generated trailers, against reference tables",
   "All 256 codes under every header form."),
 "C20": ("enumeration of parameters and generation of longer ones, against a reference rule",
   "Every command with every one-byte parameter, all two-byte parameters. What multi-byte application numbers mean is not claimed (DESIGN.md)."),
 "C21": ("fuzzing of rejected inputs; an independent renderer and fault localisation by the reference decoder",
   "Rejected mutants; faults placed in records and headers, and single faults in a known field that the report has to name; conversion failures with known causes."),
 "C22": ("differential between ways of supplying the same bytes; stateful histories; every prefix",
   "Eight ways of supplying, histories of up to 24 steps, every prefix of generated packets in a streaming buffer."),
 "C23": ("round trip through files with generated spellings, names and faults",
   "Generated spellings, surroundings and malformations. Items of one digit, with a plus sign or with superfluous zeros are not claimed (DESIGN.md)."),
 "C24": ("differential between the command-line tool and the library over generated lists of files",
   "The real tool is run on generated lists; which of the two output streams a report goes to is not claimed."),
 "C25": ("round trip from an independent encoder and differential against an independent decoder",
   "Generated packets of every kind, mutants, record-like bytes, recordings and all their one-byte changes."),
 "C26": ("exhaustive enumeration of patterns and codes against a textual reading of the pattern",
   "All 640 patterns x all 128 codes, compiled into a program by the real macro: complete."),
 "C27": ("fuzzing with counted allocations and counted edges (instrumented build) against linear bounds; metamorphic growth relation on repeated patterns; processor time on long inputs",
   "The bounds are four or more times what the library needs. Work inside the standard library shows only in memory and, on inputs of half a megabyte, in time."),
 "C28": ("metamorphic: the same item alone, followed by other bytes, cut at every byte, and in generated sequences; sizes from the reference decoder",
   "Generated items of 21 kinds, damaged items and arbitrary bytes; sequences of up to 12 items."),
 "C29": ("differential between each layer and the decoders of its parts; concatenation law and reference decoder on bodies, payloads and chains beyond packet size",
   "Bodies of up to 70 000 records, payloads of up to 140 000 bytes, chains of up to 70 000 extensions; what is not claimed elsewhere (DESIGN.md section 4) is not claimed here."),
 "C30": ("differential against the recorded readings of the reference implementation; metamorphic: recorded parts put together anew; generated numbers under the unit deduced from the recorded one",
   "70 recorded telegrams with some 900 records. The readings come from the repository's test data and share nothing with the tables of the other checks. Numbers with bad digits, VIF 7B without extension and the fixed data structure are not compared (DESIGN.md)."),
 "C31": ("differential between builds (profiles, byte order and word size, environment) answering over pipes on generated inputs",
   "The build for the other machine (big-endian, 32 bit) is run by Miri on some 1250 cases in the quick tier; if Miri cannot be started that sub-check gives no verdict, and the evidence says so."),
}
props = [json.loads(l) for l in open(home / "properties.jsonl")]
assert [p["id"] for p in props] == list(T), (len(props), len(T))
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [
  {
   "property": i,
   "quick_cmd": f"./check {i} quick",
   "thorough_cmd": f"./check {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": t,
   "level": "exploration",
   "level_note": n + " Trusts the reference in harness/src, which shares no code with the library.",
  } for i, (t, n) in T.items()
 ],
 "not_applicable": [],
 "notes": "No hooks: everything the checks need of the library is public. Violations are shrunk and written to replays/; ./check replay FILE runs one again. KNOWN_FINDINGS lists what was repaired.",
}
(home / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
