//! C26: the bit-pattern shorthand. `/verif/vifcheck` uses every pattern there is
//! in a match and prints which of the 128 codes each selects; the oracle reads
//! the patterns as text.

use std::collections::HashMap;
use std::sync::OnceLock;

use super::*;
use crate::engine::{Outcome, Plan, Sub};

pub const C26: &[Sub] = &[Sub {
	name: "every pattern and every code",
	plan: Plan::Enumerate {
		count: PATTERNS * 128,
		tail: 0,
	},
	rule: "all 640 patterns (three bits; zero to four free places, each n or p, after fixed \
	       bits) x all 128 codes; non-trivial if the fixed bits agree in all places but at most \
	       one",
	run: c26,
}];

pub const PATTERNS: u64 = 640;

/// Pattern number `i`, as text
pub fn pattern(i: u64) -> String {
	let (upper, mut low) = (i / 80, i % 80);
	// free places: k of them leave 4 - k fixed bits and have 2^k spellings, so
	// there are 16 patterns for every k
	let k = (low / 16) as usize;
	low %= 16;
	let mut text = format!("E{upper:03b} ");
	for place in 0..4 {
		let bit = low >> (3 - place) & 1;
		text.push(match (place < 4 - k, bit) {
			(true, 0) => '0',
			(true, _) => '1',
			(false, 0) => 'n',
			(false, _) => 'p',
		});
	}
	text
}

fn table() -> &'static HashMap<String, String> {
	static T: OnceLock<HashMap<String, String>> = OnceLock::new();
	T.get_or_init(|| {
		let p = std::env::var_os("MBUS_VIFCHECK").expect("MBUS_VIFCHECK");
		let out = std::process::Command::new(p).output().expect("vifcheck");
		assert!(out.status.success(), "vifcheck failed");
		String::from_utf8(out.stdout)
			.expect("vifcheck")
			.lines()
			.map(|l| {
				let (p, bits) = l.split_once('=').expect("vifcheck");
				(p.to_owned(), bits.to_owned())
			})
			.collect()
	})
}

fn c26(t: &mut Tape) -> Outcome {
	let i = t.index();
	let (which, code) = (i / 128, (i % 128) as u8);
	let text = pattern(which);
	let row = table().get(&text).expect("a row for every pattern");
	let got = row.as_bytes()[usize::from(code)] == b'1';
	let bits = format!("{code:07b}");
	let differ = bits
		.chars()
		.zip(text.chars().skip(1).filter(|c| *c != ' '))
		.filter(|(b, p)| matches!(p, '0' | '1') && b != p)
		.count();
	let want = differ == 0;
	let mut input = text.clone().into_bytes();
	input.push(b' ');
	input.extend(bits.bytes());
	Outcome::new(&input)
		.nontrivial(differ <= 1)
		.tag(if want { "selected" } else { "not selected" })
		.verdict((got != want).then(|| {
			format!(
				"{text} {} {bits}, must {}",
				if got { "selects" } else { "does not select" },
				if want { "select it" } else { "not" }
			)
		}))
}
