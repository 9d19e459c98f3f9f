//! Answers questions from standard input until there are no more:
//! kind (1 byte), size (1 byte), length (4 bytes, little endian), bytes.

use std::io::{Read, Write};
use std::panic::catch_unwind;

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let mut from = std::io::stdin().lock();
	let mut to = std::io::stdout().lock();
	let mut head = [0; 6];
	while from.read_exact(&mut head).is_ok() {
		let n = u32::from_le_bytes([head[2], head[3], head[4], head[5]]);
		let mut d = vec![0; n as usize];
		if from.read_exact(&mut d).is_err() {
			break;
		}
		let a = catch_unwind(|| answer::answer(head[0], head[1], &d)).unwrap_or_else(|_| "panicked".into());
		let mut out = (a.len() as u32).to_le_bytes().to_vec();
		out.extend(a.as_bytes());
		if to.write_all(&out).and_then(|()| to.flush()).is_err() {
			break;
		}
	}
}
