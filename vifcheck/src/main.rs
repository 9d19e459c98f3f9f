// Written by tools/gen_vifcheck.py. Prints which codes each pattern selects.
#![allow(clippy::all, unreachable_patterns)]

use libmbus_macros::vif;

fn row(pattern: &str, selects: fn(u8) -> bool) {
	let bits: String = (0..128).map(|v| if selects(v) { '1' } else { '0' }).collect();
	println!("{pattern}={bits}");
}

fn main() {
	row("E000 0000", |v| match v { vif!(E000 0000) => true, _ => false });
	row("E000 0001", |v| match v { vif!(E000 0001) => true, _ => false });
	row("E000 0010", |v| match v { vif!(E000 0010) => true, _ => false });
	row("E000 0011", |v| match v { vif!(E000 0011) => true, _ => false });
	row("E000 0100", |v| match v { vif!(E000 0100) => true, _ => false });
	row("E000 0101", |v| match v { vif!(E000 0101) => true, _ => false });
	row("E000 0110", |v| match v { vif!(E000 0110) => true, _ => false });
	row("E000 0111", |v| match v { vif!(E000 0111) => true, _ => false });
	row("E000 1000", |v| match v { vif!(E000 1000) => true, _ => false });
	row("E000 1001", |v| match v { vif!(E000 1001) => true, _ => false });
	row("E000 1010", |v| match v { vif!(E000 1010) => true, _ => false });
	row("E000 1011", |v| match v { vif!(E000 1011) => true, _ => false });
	row("E000 1100", |v| match v { vif!(E000 1100) => true, _ => false });
	row("E000 1101", |v| match v { vif!(E000 1101) => true, _ => false });
	row("E000 1110", |v| match v { vif!(E000 1110) => true, _ => false });
	row("E000 1111", |v| match v { vif!(E000 1111) => true, _ => false });
	row("E000 000n", |v| match v { vif!(E000 000n) => true, _ => false });
	row("E000 000p", |v| match v { vif!(E000 000p) => true, _ => false });
	row("E000 001n", |v| match v { vif!(E000 001n) => true, _ => false });
	row("E000 001p", |v| match v { vif!(E000 001p) => true, _ => false });
	row("E000 010n", |v| match v { vif!(E000 010n) => true, _ => false });
	row("E000 010p", |v| match v { vif!(E000 010p) => true, _ => false });
	row("E000 011n", |v| match v { vif!(E000 011n) => true, _ => false });
	row("E000 011p", |v| match v { vif!(E000 011p) => true, _ => false });
	row("E000 100n", |v| match v { vif!(E000 100n) => true, _ => false });
	row("E000 100p", |v| match v { vif!(E000 100p) => true, _ => false });
	row("E000 101n", |v| match v { vif!(E000 101n) => true, _ => false });
	row("E000 101p", |v| match v { vif!(E000 101p) => true, _ => false });
	row("E000 110n", |v| match v { vif!(E000 110n) => true, _ => false });
	row("E000 110p", |v| match v { vif!(E000 110p) => true, _ => false });
	row("E000 111n", |v| match v { vif!(E000 111n) => true, _ => false });
	row("E000 111p", |v| match v { vif!(E000 111p) => true, _ => false });
	row("E000 00nn", |v| match v { vif!(E000 00nn) => true, _ => false });
	row("E000 00np", |v| match v { vif!(E000 00np) => true, _ => false });
	row("E000 00pn", |v| match v { vif!(E000 00pn) => true, _ => false });
	row("E000 00pp", |v| match v { vif!(E000 00pp) => true, _ => false });
	row("E000 01nn", |v| match v { vif!(E000 01nn) => true, _ => false });
	row("E000 01np", |v| match v { vif!(E000 01np) => true, _ => false });
	row("E000 01pn", |v| match v { vif!(E000 01pn) => true, _ => false });
	row("E000 01pp", |v| match v { vif!(E000 01pp) => true, _ => false });
	row("E000 10nn", |v| match v { vif!(E000 10nn) => true, _ => false });
	row("E000 10np", |v| match v { vif!(E000 10np) => true, _ => false });
	row("E000 10pn", |v| match v { vif!(E000 10pn) => true, _ => false });
	row("E000 10pp", |v| match v { vif!(E000 10pp) => true, _ => false });
	row("E000 11nn", |v| match v { vif!(E000 11nn) => true, _ => false });
	row("E000 11np", |v| match v { vif!(E000 11np) => true, _ => false });
	row("E000 11pn", |v| match v { vif!(E000 11pn) => true, _ => false });
	row("E000 11pp", |v| match v { vif!(E000 11pp) => true, _ => false });
	row("E000 0nnn", |v| match v { vif!(E000 0nnn) => true, _ => false });
	row("E000 0nnp", |v| match v { vif!(E000 0nnp) => true, _ => false });
	row("E000 0npn", |v| match v { vif!(E000 0npn) => true, _ => false });
	row("E000 0npp", |v| match v { vif!(E000 0npp) => true, _ => false });
	row("E000 0pnn", |v| match v { vif!(E000 0pnn) => true, _ => false });
	row("E000 0pnp", |v| match v { vif!(E000 0pnp) => true, _ => false });
	row("E000 0ppn", |v| match v { vif!(E000 0ppn) => true, _ => false });
	row("E000 0ppp", |v| match v { vif!(E000 0ppp) => true, _ => false });
	row("E000 1nnn", |v| match v { vif!(E000 1nnn) => true, _ => false });
	row("E000 1nnp", |v| match v { vif!(E000 1nnp) => true, _ => false });
	row("E000 1npn", |v| match v { vif!(E000 1npn) => true, _ => false });
	row("E000 1npp", |v| match v { vif!(E000 1npp) => true, _ => false });
	row("E000 1pnn", |v| match v { vif!(E000 1pnn) => true, _ => false });
	row("E000 1pnp", |v| match v { vif!(E000 1pnp) => true, _ => false });
	row("E000 1ppn", |v| match v { vif!(E000 1ppn) => true, _ => false });
	row("E000 1ppp", |v| match v { vif!(E000 1ppp) => true, _ => false });
	row("E000 nnnn", |v| match v { vif!(E000 nnnn) => true, _ => false });
	row("E000 nnnp", |v| match v { vif!(E000 nnnp) => true, _ => false });
	row("E000 nnpn", |v| match v { vif!(E000 nnpn) => true, _ => false });
	row("E000 nnpp", |v| match v { vif!(E000 nnpp) => true, _ => false });
	row("E000 npnn", |v| match v { vif!(E000 npnn) => true, _ => false });
	row("E000 npnp", |v| match v { vif!(E000 npnp) => true, _ => false });
	row("E000 nppn", |v| match v { vif!(E000 nppn) => true, _ => false });
	row("E000 nppp", |v| match v { vif!(E000 nppp) => true, _ => false });
	row("E000 pnnn", |v| match v { vif!(E000 pnnn) => true, _ => false });
	row("E000 pnnp", |v| match v { vif!(E000 pnnp) => true, _ => false });
	row("E000 pnpn", |v| match v { vif!(E000 pnpn) => true, _ => false });
	row("E000 pnpp", |v| match v { vif!(E000 pnpp) => true, _ => false });
	row("E000 ppnn", |v| match v { vif!(E000 ppnn) => true, _ => false });
	row("E000 ppnp", |v| match v { vif!(E000 ppnp) => true, _ => false });
	row("E000 pppn", |v| match v { vif!(E000 pppn) => true, _ => false });
	row("E000 pppp", |v| match v { vif!(E000 pppp) => true, _ => false });
	row("E001 0000", |v| match v { vif!(E001 0000) => true, _ => false });
	row("E001 0001", |v| match v { vif!(E001 0001) => true, _ => false });
	row("E001 0010", |v| match v { vif!(E001 0010) => true, _ => false });
	row("E001 0011", |v| match v { vif!(E001 0011) => true, _ => false });
	row("E001 0100", |v| match v { vif!(E001 0100) => true, _ => false });
	row("E001 0101", |v| match v { vif!(E001 0101) => true, _ => false });
	row("E001 0110", |v| match v { vif!(E001 0110) => true, _ => false });
	row("E001 0111", |v| match v { vif!(E001 0111) => true, _ => false });
	row("E001 1000", |v| match v { vif!(E001 1000) => true, _ => false });
	row("E001 1001", |v| match v { vif!(E001 1001) => true, _ => false });
	row("E001 1010", |v| match v { vif!(E001 1010) => true, _ => false });
	row("E001 1011", |v| match v { vif!(E001 1011) => true, _ => false });
	row("E001 1100", |v| match v { vif!(E001 1100) => true, _ => false });
	row("E001 1101", |v| match v { vif!(E001 1101) => true, _ => false });
	row("E001 1110", |v| match v { vif!(E001 1110) => true, _ => false });
	row("E001 1111", |v| match v { vif!(E001 1111) => true, _ => false });
	row("E001 000n", |v| match v { vif!(E001 000n) => true, _ => false });
	row("E001 000p", |v| match v { vif!(E001 000p) => true, _ => false });
	row("E001 001n", |v| match v { vif!(E001 001n) => true, _ => false });
	row("E001 001p", |v| match v { vif!(E001 001p) => true, _ => false });
	row("E001 010n", |v| match v { vif!(E001 010n) => true, _ => false });
	row("E001 010p", |v| match v { vif!(E001 010p) => true, _ => false });
	row("E001 011n", |v| match v { vif!(E001 011n) => true, _ => false });
	row("E001 011p", |v| match v { vif!(E001 011p) => true, _ => false });
	row("E001 100n", |v| match v { vif!(E001 100n) => true, _ => false });
	row("E001 100p", |v| match v { vif!(E001 100p) => true, _ => false });
	row("E001 101n", |v| match v { vif!(E001 101n) => true, _ => false });
	row("E001 101p", |v| match v { vif!(E001 101p) => true, _ => false });
	row("E001 110n", |v| match v { vif!(E001 110n) => true, _ => false });
	row("E001 110p", |v| match v { vif!(E001 110p) => true, _ => false });
	row("E001 111n", |v| match v { vif!(E001 111n) => true, _ => false });
	row("E001 111p", |v| match v { vif!(E001 111p) => true, _ => false });
	row("E001 00nn", |v| match v { vif!(E001 00nn) => true, _ => false });
	row("E001 00np", |v| match v { vif!(E001 00np) => true, _ => false });
	row("E001 00pn", |v| match v { vif!(E001 00pn) => true, _ => false });
	row("E001 00pp", |v| match v { vif!(E001 00pp) => true, _ => false });
	row("E001 01nn", |v| match v { vif!(E001 01nn) => true, _ => false });
	row("E001 01np", |v| match v { vif!(E001 01np) => true, _ => false });
	row("E001 01pn", |v| match v { vif!(E001 01pn) => true, _ => false });
	row("E001 01pp", |v| match v { vif!(E001 01pp) => true, _ => false });
	row("E001 10nn", |v| match v { vif!(E001 10nn) => true, _ => false });
	row("E001 10np", |v| match v { vif!(E001 10np) => true, _ => false });
	row("E001 10pn", |v| match v { vif!(E001 10pn) => true, _ => false });
	row("E001 10pp", |v| match v { vif!(E001 10pp) => true, _ => false });
	row("E001 11nn", |v| match v { vif!(E001 11nn) => true, _ => false });
	row("E001 11np", |v| match v { vif!(E001 11np) => true, _ => false });
	row("E001 11pn", |v| match v { vif!(E001 11pn) => true, _ => false });
	row("E001 11pp", |v| match v { vif!(E001 11pp) => true, _ => false });
	row("E001 0nnn", |v| match v { vif!(E001 0nnn) => true, _ => false });
	row("E001 0nnp", |v| match v { vif!(E001 0nnp) => true, _ => false });
	row("E001 0npn", |v| match v { vif!(E001 0npn) => true, _ => false });
	row("E001 0npp", |v| match v { vif!(E001 0npp) => true, _ => false });
	row("E001 0pnn", |v| match v { vif!(E001 0pnn) => true, _ => false });
	row("E001 0pnp", |v| match v { vif!(E001 0pnp) => true, _ => false });
	row("E001 0ppn", |v| match v { vif!(E001 0ppn) => true, _ => false });
	row("E001 0ppp", |v| match v { vif!(E001 0ppp) => true, _ => false });
	row("E001 1nnn", |v| match v { vif!(E001 1nnn) => true, _ => false });
	row("E001 1nnp", |v| match v { vif!(E001 1nnp) => true, _ => false });
	row("E001 1npn", |v| match v { vif!(E001 1npn) => true, _ => false });
	row("E001 1npp", |v| match v { vif!(E001 1npp) => true, _ => false });
	row("E001 1pnn", |v| match v { vif!(E001 1pnn) => true, _ => false });
	row("E001 1pnp", |v| match v { vif!(E001 1pnp) => true, _ => false });
	row("E001 1ppn", |v| match v { vif!(E001 1ppn) => true, _ => false });
	row("E001 1ppp", |v| match v { vif!(E001 1ppp) => true, _ => false });
	row("E001 nnnn", |v| match v { vif!(E001 nnnn) => true, _ => false });
	row("E001 nnnp", |v| match v { vif!(E001 nnnp) => true, _ => false });
	row("E001 nnpn", |v| match v { vif!(E001 nnpn) => true, _ => false });
	row("E001 nnpp", |v| match v { vif!(E001 nnpp) => true, _ => false });
	row("E001 npnn", |v| match v { vif!(E001 npnn) => true, _ => false });
	row("E001 npnp", |v| match v { vif!(E001 npnp) => true, _ => false });
	row("E001 nppn", |v| match v { vif!(E001 nppn) => true, _ => false });
	row("E001 nppp", |v| match v { vif!(E001 nppp) => true, _ => false });
	row("E001 pnnn", |v| match v { vif!(E001 pnnn) => true, _ => false });
	row("E001 pnnp", |v| match v { vif!(E001 pnnp) => true, _ => false });
	row("E001 pnpn", |v| match v { vif!(E001 pnpn) => true, _ => false });
	row("E001 pnpp", |v| match v { vif!(E001 pnpp) => true, _ => false });
	row("E001 ppnn", |v| match v { vif!(E001 ppnn) => true, _ => false });
	row("E001 ppnp", |v| match v { vif!(E001 ppnp) => true, _ => false });
	row("E001 pppn", |v| match v { vif!(E001 pppn) => true, _ => false });
	row("E001 pppp", |v| match v { vif!(E001 pppp) => true, _ => false });
	row("E010 0000", |v| match v { vif!(E010 0000) => true, _ => false });
	row("E010 0001", |v| match v { vif!(E010 0001) => true, _ => false });
	row("E010 0010", |v| match v { vif!(E010 0010) => true, _ => false });
	row("E010 0011", |v| match v { vif!(E010 0011) => true, _ => false });
	row("E010 0100", |v| match v { vif!(E010 0100) => true, _ => false });
	row("E010 0101", |v| match v { vif!(E010 0101) => true, _ => false });
	row("E010 0110", |v| match v { vif!(E010 0110) => true, _ => false });
	row("E010 0111", |v| match v { vif!(E010 0111) => true, _ => false });
	row("E010 1000", |v| match v { vif!(E010 1000) => true, _ => false });
	row("E010 1001", |v| match v { vif!(E010 1001) => true, _ => false });
	row("E010 1010", |v| match v { vif!(E010 1010) => true, _ => false });
	row("E010 1011", |v| match v { vif!(E010 1011) => true, _ => false });
	row("E010 1100", |v| match v { vif!(E010 1100) => true, _ => false });
	row("E010 1101", |v| match v { vif!(E010 1101) => true, _ => false });
	row("E010 1110", |v| match v { vif!(E010 1110) => true, _ => false });
	row("E010 1111", |v| match v { vif!(E010 1111) => true, _ => false });
	row("E010 000n", |v| match v { vif!(E010 000n) => true, _ => false });
	row("E010 000p", |v| match v { vif!(E010 000p) => true, _ => false });
	row("E010 001n", |v| match v { vif!(E010 001n) => true, _ => false });
	row("E010 001p", |v| match v { vif!(E010 001p) => true, _ => false });
	row("E010 010n", |v| match v { vif!(E010 010n) => true, _ => false });
	row("E010 010p", |v| match v { vif!(E010 010p) => true, _ => false });
	row("E010 011n", |v| match v { vif!(E010 011n) => true, _ => false });
	row("E010 011p", |v| match v { vif!(E010 011p) => true, _ => false });
	row("E010 100n", |v| match v { vif!(E010 100n) => true, _ => false });
	row("E010 100p", |v| match v { vif!(E010 100p) => true, _ => false });
	row("E010 101n", |v| match v { vif!(E010 101n) => true, _ => false });
	row("E010 101p", |v| match v { vif!(E010 101p) => true, _ => false });
	row("E010 110n", |v| match v { vif!(E010 110n) => true, _ => false });
	row("E010 110p", |v| match v { vif!(E010 110p) => true, _ => false });
	row("E010 111n", |v| match v { vif!(E010 111n) => true, _ => false });
	row("E010 111p", |v| match v { vif!(E010 111p) => true, _ => false });
	row("E010 00nn", |v| match v { vif!(E010 00nn) => true, _ => false });
	row("E010 00np", |v| match v { vif!(E010 00np) => true, _ => false });
	row("E010 00pn", |v| match v { vif!(E010 00pn) => true, _ => false });
	row("E010 00pp", |v| match v { vif!(E010 00pp) => true, _ => false });
	row("E010 01nn", |v| match v { vif!(E010 01nn) => true, _ => false });
	row("E010 01np", |v| match v { vif!(E010 01np) => true, _ => false });
	row("E010 01pn", |v| match v { vif!(E010 01pn) => true, _ => false });
	row("E010 01pp", |v| match v { vif!(E010 01pp) => true, _ => false });
	row("E010 10nn", |v| match v { vif!(E010 10nn) => true, _ => false });
	row("E010 10np", |v| match v { vif!(E010 10np) => true, _ => false });
	row("E010 10pn", |v| match v { vif!(E010 10pn) => true, _ => false });
	row("E010 10pp", |v| match v { vif!(E010 10pp) => true, _ => false });
	row("E010 11nn", |v| match v { vif!(E010 11nn) => true, _ => false });
	row("E010 11np", |v| match v { vif!(E010 11np) => true, _ => false });
	row("E010 11pn", |v| match v { vif!(E010 11pn) => true, _ => false });
	row("E010 11pp", |v| match v { vif!(E010 11pp) => true, _ => false });
	row("E010 0nnn", |v| match v { vif!(E010 0nnn) => true, _ => false });
	row("E010 0nnp", |v| match v { vif!(E010 0nnp) => true, _ => false });
	row("E010 0npn", |v| match v { vif!(E010 0npn) => true, _ => false });
	row("E010 0npp", |v| match v { vif!(E010 0npp) => true, _ => false });
	row("E010 0pnn", |v| match v { vif!(E010 0pnn) => true, _ => false });
	row("E010 0pnp", |v| match v { vif!(E010 0pnp) => true, _ => false });
	row("E010 0ppn", |v| match v { vif!(E010 0ppn) => true, _ => false });
	row("E010 0ppp", |v| match v { vif!(E010 0ppp) => true, _ => false });
	row("E010 1nnn", |v| match v { vif!(E010 1nnn) => true, _ => false });
	row("E010 1nnp", |v| match v { vif!(E010 1nnp) => true, _ => false });
	row("E010 1npn", |v| match v { vif!(E010 1npn) => true, _ => false });
	row("E010 1npp", |v| match v { vif!(E010 1npp) => true, _ => false });
	row("E010 1pnn", |v| match v { vif!(E010 1pnn) => true, _ => false });
	row("E010 1pnp", |v| match v { vif!(E010 1pnp) => true, _ => false });
	row("E010 1ppn", |v| match v { vif!(E010 1ppn) => true, _ => false });
	row("E010 1ppp", |v| match v { vif!(E010 1ppp) => true, _ => false });
	row("E010 nnnn", |v| match v { vif!(E010 nnnn) => true, _ => false });
	row("E010 nnnp", |v| match v { vif!(E010 nnnp) => true, _ => false });
	row("E010 nnpn", |v| match v { vif!(E010 nnpn) => true, _ => false });
	row("E010 nnpp", |v| match v { vif!(E010 nnpp) => true, _ => false });
	row("E010 npnn", |v| match v { vif!(E010 npnn) => true, _ => false });
	row("E010 npnp", |v| match v { vif!(E010 npnp) => true, _ => false });
	row("E010 nppn", |v| match v { vif!(E010 nppn) => true, _ => false });
	row("E010 nppp", |v| match v { vif!(E010 nppp) => true, _ => false });
	row("E010 pnnn", |v| match v { vif!(E010 pnnn) => true, _ => false });
	row("E010 pnnp", |v| match v { vif!(E010 pnnp) => true, _ => false });
	row("E010 pnpn", |v| match v { vif!(E010 pnpn) => true, _ => false });
	row("E010 pnpp", |v| match v { vif!(E010 pnpp) => true, _ => false });
	row("E010 ppnn", |v| match v { vif!(E010 ppnn) => true, _ => false });
	row("E010 ppnp", |v| match v { vif!(E010 ppnp) => true, _ => false });
	row("E010 pppn", |v| match v { vif!(E010 pppn) => true, _ => false });
	row("E010 pppp", |v| match v { vif!(E010 pppp) => true, _ => false });
	row("E011 0000", |v| match v { vif!(E011 0000) => true, _ => false });
	row("E011 0001", |v| match v { vif!(E011 0001) => true, _ => false });
	row("E011 0010", |v| match v { vif!(E011 0010) => true, _ => false });
	row("E011 0011", |v| match v { vif!(E011 0011) => true, _ => false });
	row("E011 0100", |v| match v { vif!(E011 0100) => true, _ => false });
	row("E011 0101", |v| match v { vif!(E011 0101) => true, _ => false });
	row("E011 0110", |v| match v { vif!(E011 0110) => true, _ => false });
	row("E011 0111", |v| match v { vif!(E011 0111) => true, _ => false });
	row("E011 1000", |v| match v { vif!(E011 1000) => true, _ => false });
	row("E011 1001", |v| match v { vif!(E011 1001) => true, _ => false });
	row("E011 1010", |v| match v { vif!(E011 1010) => true, _ => false });
	row("E011 1011", |v| match v { vif!(E011 1011) => true, _ => false });
	row("E011 1100", |v| match v { vif!(E011 1100) => true, _ => false });
	row("E011 1101", |v| match v { vif!(E011 1101) => true, _ => false });
	row("E011 1110", |v| match v { vif!(E011 1110) => true, _ => false });
	row("E011 1111", |v| match v { vif!(E011 1111) => true, _ => false });
	row("E011 000n", |v| match v { vif!(E011 000n) => true, _ => false });
	row("E011 000p", |v| match v { vif!(E011 000p) => true, _ => false });
	row("E011 001n", |v| match v { vif!(E011 001n) => true, _ => false });
	row("E011 001p", |v| match v { vif!(E011 001p) => true, _ => false });
	row("E011 010n", |v| match v { vif!(E011 010n) => true, _ => false });
	row("E011 010p", |v| match v { vif!(E011 010p) => true, _ => false });
	row("E011 011n", |v| match v { vif!(E011 011n) => true, _ => false });
	row("E011 011p", |v| match v { vif!(E011 011p) => true, _ => false });
	row("E011 100n", |v| match v { vif!(E011 100n) => true, _ => false });
	row("E011 100p", |v| match v { vif!(E011 100p) => true, _ => false });
	row("E011 101n", |v| match v { vif!(E011 101n) => true, _ => false });
	row("E011 101p", |v| match v { vif!(E011 101p) => true, _ => false });
	row("E011 110n", |v| match v { vif!(E011 110n) => true, _ => false });
	row("E011 110p", |v| match v { vif!(E011 110p) => true, _ => false });
	row("E011 111n", |v| match v { vif!(E011 111n) => true, _ => false });
	row("E011 111p", |v| match v { vif!(E011 111p) => true, _ => false });
	row("E011 00nn", |v| match v { vif!(E011 00nn) => true, _ => false });
	row("E011 00np", |v| match v { vif!(E011 00np) => true, _ => false });
	row("E011 00pn", |v| match v { vif!(E011 00pn) => true, _ => false });
	row("E011 00pp", |v| match v { vif!(E011 00pp) => true, _ => false });
	row("E011 01nn", |v| match v { vif!(E011 01nn) => true, _ => false });
	row("E011 01np", |v| match v { vif!(E011 01np) => true, _ => false });
	row("E011 01pn", |v| match v { vif!(E011 01pn) => true, _ => false });
	row("E011 01pp", |v| match v { vif!(E011 01pp) => true, _ => false });
	row("E011 10nn", |v| match v { vif!(E011 10nn) => true, _ => false });
	row("E011 10np", |v| match v { vif!(E011 10np) => true, _ => false });
	row("E011 10pn", |v| match v { vif!(E011 10pn) => true, _ => false });
	row("E011 10pp", |v| match v { vif!(E011 10pp) => true, _ => false });
	row("E011 11nn", |v| match v { vif!(E011 11nn) => true, _ => false });
	row("E011 11np", |v| match v { vif!(E011 11np) => true, _ => false });
	row("E011 11pn", |v| match v { vif!(E011 11pn) => true, _ => false });
	row("E011 11pp", |v| match v { vif!(E011 11pp) => true, _ => false });
	row("E011 0nnn", |v| match v { vif!(E011 0nnn) => true, _ => false });
	row("E011 0nnp", |v| match v { vif!(E011 0nnp) => true, _ => false });
	row("E011 0npn", |v| match v { vif!(E011 0npn) => true, _ => false });
	row("E011 0npp", |v| match v { vif!(E011 0npp) => true, _ => false });
	row("E011 0pnn", |v| match v { vif!(E011 0pnn) => true, _ => false });
	row("E011 0pnp", |v| match v { vif!(E011 0pnp) => true, _ => false });
	row("E011 0ppn", |v| match v { vif!(E011 0ppn) => true, _ => false });
	row("E011 0ppp", |v| match v { vif!(E011 0ppp) => true, _ => false });
	row("E011 1nnn", |v| match v { vif!(E011 1nnn) => true, _ => false });
	row("E011 1nnp", |v| match v { vif!(E011 1nnp) => true, _ => false });
	row("E011 1npn", |v| match v { vif!(E011 1npn) => true, _ => false });
	row("E011 1npp", |v| match v { vif!(E011 1npp) => true, _ => false });
	row("E011 1pnn", |v| match v { vif!(E011 1pnn) => true, _ => false });
	row("E011 1pnp", |v| match v { vif!(E011 1pnp) => true, _ => false });
	row("E011 1ppn", |v| match v { vif!(E011 1ppn) => true, _ => false });
	row("E011 1ppp", |v| match v { vif!(E011 1ppp) => true, _ => false });
	row("E011 nnnn", |v| match v { vif!(E011 nnnn) => true, _ => false });
	row("E011 nnnp", |v| match v { vif!(E011 nnnp) => true, _ => false });
	row("E011 nnpn", |v| match v { vif!(E011 nnpn) => true, _ => false });
	row("E011 nnpp", |v| match v { vif!(E011 nnpp) => true, _ => false });
	row("E011 npnn", |v| match v { vif!(E011 npnn) => true, _ => false });
	row("E011 npnp", |v| match v { vif!(E011 npnp) => true, _ => false });
	row("E011 nppn", |v| match v { vif!(E011 nppn) => true, _ => false });
	row("E011 nppp", |v| match v { vif!(E011 nppp) => true, _ => false });
	row("E011 pnnn", |v| match v { vif!(E011 pnnn) => true, _ => false });
	row("E011 pnnp", |v| match v { vif!(E011 pnnp) => true, _ => false });
	row("E011 pnpn", |v| match v { vif!(E011 pnpn) => true, _ => false });
	row("E011 pnpp", |v| match v { vif!(E011 pnpp) => true, _ => false });
	row("E011 ppnn", |v| match v { vif!(E011 ppnn) => true, _ => false });
	row("E011 ppnp", |v| match v { vif!(E011 ppnp) => true, _ => false });
	row("E011 pppn", |v| match v { vif!(E011 pppn) => true, _ => false });
	row("E011 pppp", |v| match v { vif!(E011 pppp) => true, _ => false });
	row("E100 0000", |v| match v { vif!(E100 0000) => true, _ => false });
	row("E100 0001", |v| match v { vif!(E100 0001) => true, _ => false });
	row("E100 0010", |v| match v { vif!(E100 0010) => true, _ => false });
	row("E100 0011", |v| match v { vif!(E100 0011) => true, _ => false });
	row("E100 0100", |v| match v { vif!(E100 0100) => true, _ => false });
	row("E100 0101", |v| match v { vif!(E100 0101) => true, _ => false });
	row("E100 0110", |v| match v { vif!(E100 0110) => true, _ => false });
	row("E100 0111", |v| match v { vif!(E100 0111) => true, _ => false });
	row("E100 1000", |v| match v { vif!(E100 1000) => true, _ => false });
	row("E100 1001", |v| match v { vif!(E100 1001) => true, _ => false });
	row("E100 1010", |v| match v { vif!(E100 1010) => true, _ => false });
	row("E100 1011", |v| match v { vif!(E100 1011) => true, _ => false });
	row("E100 1100", |v| match v { vif!(E100 1100) => true, _ => false });
	row("E100 1101", |v| match v { vif!(E100 1101) => true, _ => false });
	row("E100 1110", |v| match v { vif!(E100 1110) => true, _ => false });
	row("E100 1111", |v| match v { vif!(E100 1111) => true, _ => false });
	row("E100 000n", |v| match v { vif!(E100 000n) => true, _ => false });
	row("E100 000p", |v| match v { vif!(E100 000p) => true, _ => false });
	row("E100 001n", |v| match v { vif!(E100 001n) => true, _ => false });
	row("E100 001p", |v| match v { vif!(E100 001p) => true, _ => false });
	row("E100 010n", |v| match v { vif!(E100 010n) => true, _ => false });
	row("E100 010p", |v| match v { vif!(E100 010p) => true, _ => false });
	row("E100 011n", |v| match v { vif!(E100 011n) => true, _ => false });
	row("E100 011p", |v| match v { vif!(E100 011p) => true, _ => false });
	row("E100 100n", |v| match v { vif!(E100 100n) => true, _ => false });
	row("E100 100p", |v| match v { vif!(E100 100p) => true, _ => false });
	row("E100 101n", |v| match v { vif!(E100 101n) => true, _ => false });
	row("E100 101p", |v| match v { vif!(E100 101p) => true, _ => false });
	row("E100 110n", |v| match v { vif!(E100 110n) => true, _ => false });
	row("E100 110p", |v| match v { vif!(E100 110p) => true, _ => false });
	row("E100 111n", |v| match v { vif!(E100 111n) => true, _ => false });
	row("E100 111p", |v| match v { vif!(E100 111p) => true, _ => false });
	row("E100 00nn", |v| match v { vif!(E100 00nn) => true, _ => false });
	row("E100 00np", |v| match v { vif!(E100 00np) => true, _ => false });
	row("E100 00pn", |v| match v { vif!(E100 00pn) => true, _ => false });
	row("E100 00pp", |v| match v { vif!(E100 00pp) => true, _ => false });
	row("E100 01nn", |v| match v { vif!(E100 01nn) => true, _ => false });
	row("E100 01np", |v| match v { vif!(E100 01np) => true, _ => false });
	row("E100 01pn", |v| match v { vif!(E100 01pn) => true, _ => false });
	row("E100 01pp", |v| match v { vif!(E100 01pp) => true, _ => false });
	row("E100 10nn", |v| match v { vif!(E100 10nn) => true, _ => false });
	row("E100 10np", |v| match v { vif!(E100 10np) => true, _ => false });
	row("E100 10pn", |v| match v { vif!(E100 10pn) => true, _ => false });
	row("E100 10pp", |v| match v { vif!(E100 10pp) => true, _ => false });
	row("E100 11nn", |v| match v { vif!(E100 11nn) => true, _ => false });
	row("E100 11np", |v| match v { vif!(E100 11np) => true, _ => false });
	row("E100 11pn", |v| match v { vif!(E100 11pn) => true, _ => false });
	row("E100 11pp", |v| match v { vif!(E100 11pp) => true, _ => false });
	row("E100 0nnn", |v| match v { vif!(E100 0nnn) => true, _ => false });
	row("E100 0nnp", |v| match v { vif!(E100 0nnp) => true, _ => false });
	row("E100 0npn", |v| match v { vif!(E100 0npn) => true, _ => false });
	row("E100 0npp", |v| match v { vif!(E100 0npp) => true, _ => false });
	row("E100 0pnn", |v| match v { vif!(E100 0pnn) => true, _ => false });
	row("E100 0pnp", |v| match v { vif!(E100 0pnp) => true, _ => false });
	row("E100 0ppn", |v| match v { vif!(E100 0ppn) => true, _ => false });
	row("E100 0ppp", |v| match v { vif!(E100 0ppp) => true, _ => false });
	row("E100 1nnn", |v| match v { vif!(E100 1nnn) => true, _ => false });
	row("E100 1nnp", |v| match v { vif!(E100 1nnp) => true, _ => false });
	row("E100 1npn", |v| match v { vif!(E100 1npn) => true, _ => false });
	row("E100 1npp", |v| match v { vif!(E100 1npp) => true, _ => false });
	row("E100 1pnn", |v| match v { vif!(E100 1pnn) => true, _ => false });
	row("E100 1pnp", |v| match v { vif!(E100 1pnp) => true, _ => false });
	row("E100 1ppn", |v| match v { vif!(E100 1ppn) => true, _ => false });
	row("E100 1ppp", |v| match v { vif!(E100 1ppp) => true, _ => false });
	row("E100 nnnn", |v| match v { vif!(E100 nnnn) => true, _ => false });
	row("E100 nnnp", |v| match v { vif!(E100 nnnp) => true, _ => false });
	row("E100 nnpn", |v| match v { vif!(E100 nnpn) => true, _ => false });
	row("E100 nnpp", |v| match v { vif!(E100 nnpp) => true, _ => false });
	row("E100 npnn", |v| match v { vif!(E100 npnn) => true, _ => false });
	row("E100 npnp", |v| match v { vif!(E100 npnp) => true, _ => false });
	row("E100 nppn", |v| match v { vif!(E100 nppn) => true, _ => false });
	row("E100 nppp", |v| match v { vif!(E100 nppp) => true, _ => false });
	row("E100 pnnn", |v| match v { vif!(E100 pnnn) => true, _ => false });
	row("E100 pnnp", |v| match v { vif!(E100 pnnp) => true, _ => false });
	row("E100 pnpn", |v| match v { vif!(E100 pnpn) => true, _ => false });
	row("E100 pnpp", |v| match v { vif!(E100 pnpp) => true, _ => false });
	row("E100 ppnn", |v| match v { vif!(E100 ppnn) => true, _ => false });
	row("E100 ppnp", |v| match v { vif!(E100 ppnp) => true, _ => false });
	row("E100 pppn", |v| match v { vif!(E100 pppn) => true, _ => false });
	row("E100 pppp", |v| match v { vif!(E100 pppp) => true, _ => false });
	row("E101 0000", |v| match v { vif!(E101 0000) => true, _ => false });
	row("E101 0001", |v| match v { vif!(E101 0001) => true, _ => false });
	row("E101 0010", |v| match v { vif!(E101 0010) => true, _ => false });
	row("E101 0011", |v| match v { vif!(E101 0011) => true, _ => false });
	row("E101 0100", |v| match v { vif!(E101 0100) => true, _ => false });
	row("E101 0101", |v| match v { vif!(E101 0101) => true, _ => false });
	row("E101 0110", |v| match v { vif!(E101 0110) => true, _ => false });
	row("E101 0111", |v| match v { vif!(E101 0111) => true, _ => false });
	row("E101 1000", |v| match v { vif!(E101 1000) => true, _ => false });
	row("E101 1001", |v| match v { vif!(E101 1001) => true, _ => false });
	row("E101 1010", |v| match v { vif!(E101 1010) => true, _ => false });
	row("E101 1011", |v| match v { vif!(E101 1011) => true, _ => false });
	row("E101 1100", |v| match v { vif!(E101 1100) => true, _ => false });
	row("E101 1101", |v| match v { vif!(E101 1101) => true, _ => false });
	row("E101 1110", |v| match v { vif!(E101 1110) => true, _ => false });
	row("E101 1111", |v| match v { vif!(E101 1111) => true, _ => false });
	row("E101 000n", |v| match v { vif!(E101 000n) => true, _ => false });
	row("E101 000p", |v| match v { vif!(E101 000p) => true, _ => false });
	row("E101 001n", |v| match v { vif!(E101 001n) => true, _ => false });
	row("E101 001p", |v| match v { vif!(E101 001p) => true, _ => false });
	row("E101 010n", |v| match v { vif!(E101 010n) => true, _ => false });
	row("E101 010p", |v| match v { vif!(E101 010p) => true, _ => false });
	row("E101 011n", |v| match v { vif!(E101 011n) => true, _ => false });
	row("E101 011p", |v| match v { vif!(E101 011p) => true, _ => false });
	row("E101 100n", |v| match v { vif!(E101 100n) => true, _ => false });
	row("E101 100p", |v| match v { vif!(E101 100p) => true, _ => false });
	row("E101 101n", |v| match v { vif!(E101 101n) => true, _ => false });
	row("E101 101p", |v| match v { vif!(E101 101p) => true, _ => false });
	row("E101 110n", |v| match v { vif!(E101 110n) => true, _ => false });
	row("E101 110p", |v| match v { vif!(E101 110p) => true, _ => false });
	row("E101 111n", |v| match v { vif!(E101 111n) => true, _ => false });
	row("E101 111p", |v| match v { vif!(E101 111p) => true, _ => false });
	row("E101 00nn", |v| match v { vif!(E101 00nn) => true, _ => false });
	row("E101 00np", |v| match v { vif!(E101 00np) => true, _ => false });
	row("E101 00pn", |v| match v { vif!(E101 00pn) => true, _ => false });
	row("E101 00pp", |v| match v { vif!(E101 00pp) => true, _ => false });
	row("E101 01nn", |v| match v { vif!(E101 01nn) => true, _ => false });
	row("E101 01np", |v| match v { vif!(E101 01np) => true, _ => false });
	row("E101 01pn", |v| match v { vif!(E101 01pn) => true, _ => false });
	row("E101 01pp", |v| match v { vif!(E101 01pp) => true, _ => false });
	row("E101 10nn", |v| match v { vif!(E101 10nn) => true, _ => false });
	row("E101 10np", |v| match v { vif!(E101 10np) => true, _ => false });
	row("E101 10pn", |v| match v { vif!(E101 10pn) => true, _ => false });
	row("E101 10pp", |v| match v { vif!(E101 10pp) => true, _ => false });
	row("E101 11nn", |v| match v { vif!(E101 11nn) => true, _ => false });
	row("E101 11np", |v| match v { vif!(E101 11np) => true, _ => false });
	row("E101 11pn", |v| match v { vif!(E101 11pn) => true, _ => false });
	row("E101 11pp", |v| match v { vif!(E101 11pp) => true, _ => false });
	row("E101 0nnn", |v| match v { vif!(E101 0nnn) => true, _ => false });
	row("E101 0nnp", |v| match v { vif!(E101 0nnp) => true, _ => false });
	row("E101 0npn", |v| match v { vif!(E101 0npn) => true, _ => false });
	row("E101 0npp", |v| match v { vif!(E101 0npp) => true, _ => false });
	row("E101 0pnn", |v| match v { vif!(E101 0pnn) => true, _ => false });
	row("E101 0pnp", |v| match v { vif!(E101 0pnp) => true, _ => false });
	row("E101 0ppn", |v| match v { vif!(E101 0ppn) => true, _ => false });
	row("E101 0ppp", |v| match v { vif!(E101 0ppp) => true, _ => false });
	row("E101 1nnn", |v| match v { vif!(E101 1nnn) => true, _ => false });
	row("E101 1nnp", |v| match v { vif!(E101 1nnp) => true, _ => false });
	row("E101 1npn", |v| match v { vif!(E101 1npn) => true, _ => false });
	row("E101 1npp", |v| match v { vif!(E101 1npp) => true, _ => false });
	row("E101 1pnn", |v| match v { vif!(E101 1pnn) => true, _ => false });
	row("E101 1pnp", |v| match v { vif!(E101 1pnp) => true, _ => false });
	row("E101 1ppn", |v| match v { vif!(E101 1ppn) => true, _ => false });
	row("E101 1ppp", |v| match v { vif!(E101 1ppp) => true, _ => false });
	row("E101 nnnn", |v| match v { vif!(E101 nnnn) => true, _ => false });
	row("E101 nnnp", |v| match v { vif!(E101 nnnp) => true, _ => false });
	row("E101 nnpn", |v| match v { vif!(E101 nnpn) => true, _ => false });
	row("E101 nnpp", |v| match v { vif!(E101 nnpp) => true, _ => false });
	row("E101 npnn", |v| match v { vif!(E101 npnn) => true, _ => false });
	row("E101 npnp", |v| match v { vif!(E101 npnp) => true, _ => false });
	row("E101 nppn", |v| match v { vif!(E101 nppn) => true, _ => false });
	row("E101 nppp", |v| match v { vif!(E101 nppp) => true, _ => false });
	row("E101 pnnn", |v| match v { vif!(E101 pnnn) => true, _ => false });
	row("E101 pnnp", |v| match v { vif!(E101 pnnp) => true, _ => false });
	row("E101 pnpn", |v| match v { vif!(E101 pnpn) => true, _ => false });
	row("E101 pnpp", |v| match v { vif!(E101 pnpp) => true, _ => false });
	row("E101 ppnn", |v| match v { vif!(E101 ppnn) => true, _ => false });
	row("E101 ppnp", |v| match v { vif!(E101 ppnp) => true, _ => false });
	row("E101 pppn", |v| match v { vif!(E101 pppn) => true, _ => false });
	row("E101 pppp", |v| match v { vif!(E101 pppp) => true, _ => false });
	row("E110 0000", |v| match v { vif!(E110 0000) => true, _ => false });
	row("E110 0001", |v| match v { vif!(E110 0001) => true, _ => false });
	row("E110 0010", |v| match v { vif!(E110 0010) => true, _ => false });
	row("E110 0011", |v| match v { vif!(E110 0011) => true, _ => false });
	row("E110 0100", |v| match v { vif!(E110 0100) => true, _ => false });
	row("E110 0101", |v| match v { vif!(E110 0101) => true, _ => false });
	row("E110 0110", |v| match v { vif!(E110 0110) => true, _ => false });
	row("E110 0111", |v| match v { vif!(E110 0111) => true, _ => false });
	row("E110 1000", |v| match v { vif!(E110 1000) => true, _ => false });
	row("E110 1001", |v| match v { vif!(E110 1001) => true, _ => false });
	row("E110 1010", |v| match v { vif!(E110 1010) => true, _ => false });
	row("E110 1011", |v| match v { vif!(E110 1011) => true, _ => false });
	row("E110 1100", |v| match v { vif!(E110 1100) => true, _ => false });
	row("E110 1101", |v| match v { vif!(E110 1101) => true, _ => false });
	row("E110 1110", |v| match v { vif!(E110 1110) => true, _ => false });
	row("E110 1111", |v| match v { vif!(E110 1111) => true, _ => false });
	row("E110 000n", |v| match v { vif!(E110 000n) => true, _ => false });
	row("E110 000p", |v| match v { vif!(E110 000p) => true, _ => false });
	row("E110 001n", |v| match v { vif!(E110 001n) => true, _ => false });
	row("E110 001p", |v| match v { vif!(E110 001p) => true, _ => false });
	row("E110 010n", |v| match v { vif!(E110 010n) => true, _ => false });
	row("E110 010p", |v| match v { vif!(E110 010p) => true, _ => false });
	row("E110 011n", |v| match v { vif!(E110 011n) => true, _ => false });
	row("E110 011p", |v| match v { vif!(E110 011p) => true, _ => false });
	row("E110 100n", |v| match v { vif!(E110 100n) => true, _ => false });
	row("E110 100p", |v| match v { vif!(E110 100p) => true, _ => false });
	row("E110 101n", |v| match v { vif!(E110 101n) => true, _ => false });
	row("E110 101p", |v| match v { vif!(E110 101p) => true, _ => false });
	row("E110 110n", |v| match v { vif!(E110 110n) => true, _ => false });
	row("E110 110p", |v| match v { vif!(E110 110p) => true, _ => false });
	row("E110 111n", |v| match v { vif!(E110 111n) => true, _ => false });
	row("E110 111p", |v| match v { vif!(E110 111p) => true, _ => false });
	row("E110 00nn", |v| match v { vif!(E110 00nn) => true, _ => false });
	row("E110 00np", |v| match v { vif!(E110 00np) => true, _ => false });
	row("E110 00pn", |v| match v { vif!(E110 00pn) => true, _ => false });
	row("E110 00pp", |v| match v { vif!(E110 00pp) => true, _ => false });
	row("E110 01nn", |v| match v { vif!(E110 01nn) => true, _ => false });
	row("E110 01np", |v| match v { vif!(E110 01np) => true, _ => false });
	row("E110 01pn", |v| match v { vif!(E110 01pn) => true, _ => false });
	row("E110 01pp", |v| match v { vif!(E110 01pp) => true, _ => false });
	row("E110 10nn", |v| match v { vif!(E110 10nn) => true, _ => false });
	row("E110 10np", |v| match v { vif!(E110 10np) => true, _ => false });
	row("E110 10pn", |v| match v { vif!(E110 10pn) => true, _ => false });
	row("E110 10pp", |v| match v { vif!(E110 10pp) => true, _ => false });
	row("E110 11nn", |v| match v { vif!(E110 11nn) => true, _ => false });
	row("E110 11np", |v| match v { vif!(E110 11np) => true, _ => false });
	row("E110 11pn", |v| match v { vif!(E110 11pn) => true, _ => false });
	row("E110 11pp", |v| match v { vif!(E110 11pp) => true, _ => false });
	row("E110 0nnn", |v| match v { vif!(E110 0nnn) => true, _ => false });
	row("E110 0nnp", |v| match v { vif!(E110 0nnp) => true, _ => false });
	row("E110 0npn", |v| match v { vif!(E110 0npn) => true, _ => false });
	row("E110 0npp", |v| match v { vif!(E110 0npp) => true, _ => false });
	row("E110 0pnn", |v| match v { vif!(E110 0pnn) => true, _ => false });
	row("E110 0pnp", |v| match v { vif!(E110 0pnp) => true, _ => false });
	row("E110 0ppn", |v| match v { vif!(E110 0ppn) => true, _ => false });
	row("E110 0ppp", |v| match v { vif!(E110 0ppp) => true, _ => false });
	row("E110 1nnn", |v| match v { vif!(E110 1nnn) => true, _ => false });
	row("E110 1nnp", |v| match v { vif!(E110 1nnp) => true, _ => false });
	row("E110 1npn", |v| match v { vif!(E110 1npn) => true, _ => false });
	row("E110 1npp", |v| match v { vif!(E110 1npp) => true, _ => false });
	row("E110 1pnn", |v| match v { vif!(E110 1pnn) => true, _ => false });
	row("E110 1pnp", |v| match v { vif!(E110 1pnp) => true, _ => false });
	row("E110 1ppn", |v| match v { vif!(E110 1ppn) => true, _ => false });
	row("E110 1ppp", |v| match v { vif!(E110 1ppp) => true, _ => false });
	row("E110 nnnn", |v| match v { vif!(E110 nnnn) => true, _ => false });
	row("E110 nnnp", |v| match v { vif!(E110 nnnp) => true, _ => false });
	row("E110 nnpn", |v| match v { vif!(E110 nnpn) => true, _ => false });
	row("E110 nnpp", |v| match v { vif!(E110 nnpp) => true, _ => false });
	row("E110 npnn", |v| match v { vif!(E110 npnn) => true, _ => false });
	row("E110 npnp", |v| match v { vif!(E110 npnp) => true, _ => false });
	row("E110 nppn", |v| match v { vif!(E110 nppn) => true, _ => false });
	row("E110 nppp", |v| match v { vif!(E110 nppp) => true, _ => false });
	row("E110 pnnn", |v| match v { vif!(E110 pnnn) => true, _ => false });
	row("E110 pnnp", |v| match v { vif!(E110 pnnp) => true, _ => false });
	row("E110 pnpn", |v| match v { vif!(E110 pnpn) => true, _ => false });
	row("E110 pnpp", |v| match v { vif!(E110 pnpp) => true, _ => false });
	row("E110 ppnn", |v| match v { vif!(E110 ppnn) => true, _ => false });
	row("E110 ppnp", |v| match v { vif!(E110 ppnp) => true, _ => false });
	row("E110 pppn", |v| match v { vif!(E110 pppn) => true, _ => false });
	row("E110 pppp", |v| match v { vif!(E110 pppp) => true, _ => false });
	row("E111 0000", |v| match v { vif!(E111 0000) => true, _ => false });
	row("E111 0001", |v| match v { vif!(E111 0001) => true, _ => false });
	row("E111 0010", |v| match v { vif!(E111 0010) => true, _ => false });
	row("E111 0011", |v| match v { vif!(E111 0011) => true, _ => false });
	row("E111 0100", |v| match v { vif!(E111 0100) => true, _ => false });
	row("E111 0101", |v| match v { vif!(E111 0101) => true, _ => false });
	row("E111 0110", |v| match v { vif!(E111 0110) => true, _ => false });
	row("E111 0111", |v| match v { vif!(E111 0111) => true, _ => false });
	row("E111 1000", |v| match v { vif!(E111 1000) => true, _ => false });
	row("E111 1001", |v| match v { vif!(E111 1001) => true, _ => false });
	row("E111 1010", |v| match v { vif!(E111 1010) => true, _ => false });
	row("E111 1011", |v| match v { vif!(E111 1011) => true, _ => false });
	row("E111 1100", |v| match v { vif!(E111 1100) => true, _ => false });
	row("E111 1101", |v| match v { vif!(E111 1101) => true, _ => false });
	row("E111 1110", |v| match v { vif!(E111 1110) => true, _ => false });
	row("E111 1111", |v| match v { vif!(E111 1111) => true, _ => false });
	row("E111 000n", |v| match v { vif!(E111 000n) => true, _ => false });
	row("E111 000p", |v| match v { vif!(E111 000p) => true, _ => false });
	row("E111 001n", |v| match v { vif!(E111 001n) => true, _ => false });
	row("E111 001p", |v| match v { vif!(E111 001p) => true, _ => false });
	row("E111 010n", |v| match v { vif!(E111 010n) => true, _ => false });
	row("E111 010p", |v| match v { vif!(E111 010p) => true, _ => false });
	row("E111 011n", |v| match v { vif!(E111 011n) => true, _ => false });
	row("E111 011p", |v| match v { vif!(E111 011p) => true, _ => false });
	row("E111 100n", |v| match v { vif!(E111 100n) => true, _ => false });
	row("E111 100p", |v| match v { vif!(E111 100p) => true, _ => false });
	row("E111 101n", |v| match v { vif!(E111 101n) => true, _ => false });
	row("E111 101p", |v| match v { vif!(E111 101p) => true, _ => false });
	row("E111 110n", |v| match v { vif!(E111 110n) => true, _ => false });
	row("E111 110p", |v| match v { vif!(E111 110p) => true, _ => false });
	row("E111 111n", |v| match v { vif!(E111 111n) => true, _ => false });
	row("E111 111p", |v| match v { vif!(E111 111p) => true, _ => false });
	row("E111 00nn", |v| match v { vif!(E111 00nn) => true, _ => false });
	row("E111 00np", |v| match v { vif!(E111 00np) => true, _ => false });
	row("E111 00pn", |v| match v { vif!(E111 00pn) => true, _ => false });
	row("E111 00pp", |v| match v { vif!(E111 00pp) => true, _ => false });
	row("E111 01nn", |v| match v { vif!(E111 01nn) => true, _ => false });
	row("E111 01np", |v| match v { vif!(E111 01np) => true, _ => false });
	row("E111 01pn", |v| match v { vif!(E111 01pn) => true, _ => false });
	row("E111 01pp", |v| match v { vif!(E111 01pp) => true, _ => false });
	row("E111 10nn", |v| match v { vif!(E111 10nn) => true, _ => false });
	row("E111 10np", |v| match v { vif!(E111 10np) => true, _ => false });
	row("E111 10pn", |v| match v { vif!(E111 10pn) => true, _ => false });
	row("E111 10pp", |v| match v { vif!(E111 10pp) => true, _ => false });
	row("E111 11nn", |v| match v { vif!(E111 11nn) => true, _ => false });
	row("E111 11np", |v| match v { vif!(E111 11np) => true, _ => false });
	row("E111 11pn", |v| match v { vif!(E111 11pn) => true, _ => false });
	row("E111 11pp", |v| match v { vif!(E111 11pp) => true, _ => false });
	row("E111 0nnn", |v| match v { vif!(E111 0nnn) => true, _ => false });
	row("E111 0nnp", |v| match v { vif!(E111 0nnp) => true, _ => false });
	row("E111 0npn", |v| match v { vif!(E111 0npn) => true, _ => false });
	row("E111 0npp", |v| match v { vif!(E111 0npp) => true, _ => false });
	row("E111 0pnn", |v| match v { vif!(E111 0pnn) => true, _ => false });
	row("E111 0pnp", |v| match v { vif!(E111 0pnp) => true, _ => false });
	row("E111 0ppn", |v| match v { vif!(E111 0ppn) => true, _ => false });
	row("E111 0ppp", |v| match v { vif!(E111 0ppp) => true, _ => false });
	row("E111 1nnn", |v| match v { vif!(E111 1nnn) => true, _ => false });
	row("E111 1nnp", |v| match v { vif!(E111 1nnp) => true, _ => false });
	row("E111 1npn", |v| match v { vif!(E111 1npn) => true, _ => false });
	row("E111 1npp", |v| match v { vif!(E111 1npp) => true, _ => false });
	row("E111 1pnn", |v| match v { vif!(E111 1pnn) => true, _ => false });
	row("E111 1pnp", |v| match v { vif!(E111 1pnp) => true, _ => false });
	row("E111 1ppn", |v| match v { vif!(E111 1ppn) => true, _ => false });
	row("E111 1ppp", |v| match v { vif!(E111 1ppp) => true, _ => false });
	row("E111 nnnn", |v| match v { vif!(E111 nnnn) => true, _ => false });
	row("E111 nnnp", |v| match v { vif!(E111 nnnp) => true, _ => false });
	row("E111 nnpn", |v| match v { vif!(E111 nnpn) => true, _ => false });
	row("E111 nnpp", |v| match v { vif!(E111 nnpp) => true, _ => false });
	row("E111 npnn", |v| match v { vif!(E111 npnn) => true, _ => false });
	row("E111 npnp", |v| match v { vif!(E111 npnp) => true, _ => false });
	row("E111 nppn", |v| match v { vif!(E111 nppn) => true, _ => false });
	row("E111 nppp", |v| match v { vif!(E111 nppp) => true, _ => false });
	row("E111 pnnn", |v| match v { vif!(E111 pnnn) => true, _ => false });
	row("E111 pnnp", |v| match v { vif!(E111 pnnp) => true, _ => false });
	row("E111 pnpn", |v| match v { vif!(E111 pnpn) => true, _ => false });
	row("E111 pnpp", |v| match v { vif!(E111 pnpp) => true, _ => false });
	row("E111 ppnn", |v| match v { vif!(E111 ppnn) => true, _ => false });
	row("E111 ppnp", |v| match v { vif!(E111 ppnp) => true, _ => false });
	row("E111 pppn", |v| match v { vif!(E111 pppn) => true, _ => false });
	row("E111 pppp", |v| match v { vif!(E111 pppp) => true, _ => false });
}
