//! Byte strings that the code under test spells out: what a decoder compares its
//! input with is worth trying as input. They only steer the generators; no verdict
//! depends on them.

use std::sync::OnceLock;

/// The library's sources
const SOURCES: &str = "/repo/src";

pub fn words() -> &'static [Vec<u8>] {
	static WORDS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	WORDS.get_or_init(|| {
		let mut files = Vec::new();
		walk(SOURCES.as_ref(), &mut files);
		files.sort();
		let mut out = Vec::new();
		for f in files {
			if let Ok(text) = std::fs::read_to_string(f) {
				read(&text, &mut out);
			}
		}
		out.sort();
		out.dedup();
		out
	})
}

/// Names in capital letters that the sources spell, such as those of variables in the
/// environment
pub fn names() -> Vec<String> {
	let mut files = Vec::new();
	walk(SOURCES.as_ref(), &mut files);
	let mut out = Vec::new();
	for f in files {
		let text = std::fs::read_to_string(f).unwrap_or_default();
		for t in tokens(&without_tests(&text)) {
			let Token::Text(s) = t else { continue };
			let capital = |b: &u8| b.is_ascii_uppercase() || b.is_ascii_digit() || *b == b'_';
			if s.len() > 2 && s[0].is_ascii_uppercase() && s.iter().all(capital) {
				out.extend(String::from_utf8(s));
			}
		}
	}
	out.retain(|s| !s.starts_with("LD_") && std::env::var_os(s).is_none());
	out.sort();
	out.dedup();
	out
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
	for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
		let p = e.path();
		if p.is_dir() {
			walk(&p, out);
		} else if p.extension().is_some_and(|x| x == "rs") {
			out.push(p);
		}
	}
}

#[derive(Debug, PartialEq)]
enum Token {
	Number(u64),
	Text(Vec<u8>),
	Word(String),
	Sign(char),
}

fn tokens(text: &str) -> Vec<Token> {
	let b = text.as_bytes();
	let mut out = Vec::new();
	let mut i = 0;
	while i < b.len() {
		let c = b[i];
		if b[i..].starts_with(b"//") {
			while i < b.len() && b[i] != b'\n' {
				i += 1;
			}
		} else if b[i..].starts_with(b"/*") {
			i = text[i..].find("*/").map_or(b.len(), |n| i + n + 2);
		} else if c == b'"' {
			let (mut s, mut j) = (Vec::new(), i + 1);
			while j < b.len() && b[j] != b'"' {
				if b[j] == b'\\' && j + 1 < b.len() {
					j += 1;
					match b[j] {
						b'x' => {
							let v = text.get(j + 1..j + 3);
							s.extend(v.and_then(|v| u8::from_str_radix(v, 16).ok()));
							j += 2;
						}
						b'n' => s.push(b'\n'),
						b'r' => s.push(b'\r'),
						b't' => s.push(b'\t'),
						b'0' => s.push(0),
						other => s.push(other),
					}
				} else {
					s.push(b[j]);
				}
				j += 1;
			}
			out.push(Token::Text(s));
			i = j + 1;
		} else if c == b'\'' {
			// a character, or a lifetime
			match b.get(i + 1) {
				Some(&v) if v != b'\\' && b.get(i + 2) == Some(&b'\'') => {
					out.push(Token::Number(v.into()));
					i += 3;
				}
				Some(b'\\') => {
					i += 2;
					while i < b.len() && b[i] != b'\'' {
						i += 1;
					}
					i += 1;
				}
				_ => i += 1,
			}
		} else if c.is_ascii_digit() {
			let mut j = i;
			while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
				j += 1;
			}
			let s = text[i..j].replace('_', "").to_lowercase();
			let s = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"]
				.iter()
				.find_map(|x| s.strip_suffix(x).map(str::to_owned))
				.unwrap_or(s);
			let v = match s.get(..2) {
				Some("0x") => u64::from_str_radix(&s[2..], 16),
				Some("0b") => u64::from_str_radix(&s[2..], 2),
				_ => s.parse(),
			};
			if let Ok(v) = v {
				out.push(Token::Number(v));
			}
			i = j;
		} else if c.is_ascii_alphabetic() || c == b'_' {
			let mut j = i;
			while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
				j += 1;
			}
			// not the prefix of a byte string or character
			if !matches!((&text[i..j], b.get(j)), ("b", Some(b'"' | b'\''))) {
				out.push(Token::Word(text[i..j].to_owned()));
			}
			i = j;
		} else {
			if !c.is_ascii_whitespace() {
				out.push(Token::Sign(c as char));
			}
			i += 1;
		}
	}
	out
}

fn read(text: &str, out: &mut Vec<Vec<u8>>) {
	// the unit tests spell out a great deal
	let text = match text.find("#[cfg(test)]") {
		Some(_) => without_tests(text),
		None => text.to_owned(),
	};
	let t = tokens(&text);
	let mut run: Vec<u8> = Vec::new();
	let mut i = 0;
	while i < t.len() {
		match &t[i] {
			Token::Number(v) if *v <= 0xFF => {
				run.push(*v as u8);
				// the list goes on
				if t.get(i + 1) == Some(&Token::Sign(',')) {
					i += 2;
					continue;
				}
			}
			Token::Number(v) => {
				let n = (8 - v.leading_zeros() as usize / 8).next_power_of_two();
				let le = v.to_le_bytes()[..n].to_vec();
				out.push(le.iter().rev().copied().collect());
				out.push(le);
			}
			Token::Text(s) if (2..=8).contains(&s.len()) => {
				let label = i >= 2 && t[i - 2] == Token::Word("Label".into());
				if !label && !s.contains(&b'{') {
					out.push(s.iter().rev().copied().collect());
					out.push(s.clone());
				}
			}
			_ => {}
		}
		if (2..=32).contains(&run.len()) {
			out.push(run.iter().rev().copied().collect());
			out.push(std::mem::take(&mut run));
		}
		run.clear();
		i += 1;
	}
}

/// Leave out the modules marked as tests
fn without_tests(text: &str) -> String {
	let mut out = String::new();
	let mut rest = text;
	while let Some(at) = rest.find("#[cfg(test)]") {
		out.push_str(&rest[..at]);
		rest = &rest[at..];
		// to the closing brace at the start of a line
		match rest.find("\n}") {
			Some(end) => rest = &rest[end + 2..],
			None => rest = "",
		}
	}
	out.push_str(rest);
	out
}
