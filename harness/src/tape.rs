//! The source of every choice a generator makes.
//!
//! A tape is a byte string drawn by a proptest strategy (`engine::TapeStrategy`).
//! Generators read it front to back and get zeros once it is used up, so a
//! shorter tape or a tape with smaller bytes is a simpler case: that is what
//! shrinking works on, and the tape alone is enough to replay a case.

pub struct Tape<'a> {
	data: &'a [u8],
	pos: usize,
}

impl<'a> Tape<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self { data, pos: 0 }
	}

	/// The index of an enumerated case: the first eight bytes of its tape
	pub fn index(&mut self) -> u64 {
		self.u64()
	}

	pub fn u8(&mut self) -> u8 {
		let v = self.data.get(self.pos).copied().unwrap_or(0);
		self.pos += 1;
		v
	}

	pub fn u16(&mut self) -> u16 {
		u16::from_le_bytes([self.u8(), self.u8()])
	}

	pub fn u32(&mut self) -> u32 {
		u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
	}

	pub fn u64(&mut self) -> u64 {
		u64::from(self.u32()) | (u64::from(self.u32()) << 32)
	}

	/// A number in 0..n
	pub fn below(&mut self, n: usize) -> usize {
		match n {
			0 | 1 => 0,
			2..=256 => self.u8() as usize % n,
			257..=65536 => self.u16() as usize % n,
			_ => self.u64() as usize % n,
		}
	}

	/// A number in lo..=hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}

	/// True in about `num` of `den` cases; false on an exhausted tape
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) >= den - num
	}

	pub fn bool(&mut self) -> bool {
		self.u8() & 1 == 1
	}

	pub fn pick<T: Copy>(&mut self, from: &[T]) -> T {
		from[self.below(from.len())]
	}

	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.u8()).collect()
	}

	/// Data of any kind; often with a run of one byte before, behind or all over it, as
	/// padding and faults make them, or with a byte string that the library spells out
	pub fn data(&mut self, n: usize) -> Vec<u8> {
		let how = self.u8();
		let mut b = self.bytes(n);
		if how % 8 < 4 || n == 0 {
			return b;
		}
		let words = crate::dict::words();
		if how % 16 == 4 && !words.is_empty() {
			let word = &words[self.below(words.len())];
			let at = match how >> 6 {
				0 | 1 => 0,
				2 => n.saturating_sub(word.len()),
				_ => self.below(n),
			};
			for (to, from) in b[at..].iter_mut().zip(word) {
				*to = *from;
			}
			return b;
		}
		let run = match how >> 6 {
			0 => 1 + usize::from(how >> 3 & 7),
			1 => 2 * (1 + usize::from(how >> 3 & 7)),
			2 => 1 + self.below(n),
			_ => n,
		}
		.min(n);
		let fill = match self.u8() {
			0..=31 => run as u8,
			k @ 32..=223 => [0x2F, 0x00, 0xFF, 0x20, 0x2F, 0x16, 0x68, 0x0F, 0x80, 0x1F, 0xE5, 0x7F][usize::from(k) % 12],
			k => k,
		};
		let at = if how & 4 == 4 && how & 3 == 3 { 0 } else { n - run };
		b[at..at + run].fill(fill);
		b
	}

	/// A length in 0..=max, short ones more often than long ones
	pub fn len(&mut self, max: usize) -> usize {
		match self.u8() % 8 {
			0..=3 => self.below(max.min(5) + 1),
			4..=5 => self.below(max.min(20) + 1),
			6 => self.below(max + 1),
			_ => max - self.below(max.min(4) + 1),
		}
	}

	/// A byte, the values at the edges of bit fields more often than the rest
	pub fn edge_u8(&mut self) -> u8 {
		match self.u8() % 4 {
			0 => self.pick(&[
				0x00, 0x01, 0x7F, 0x80, 0xFF, 0xFE, 0x0F, 0xF0, 0x10, 0x99, 0x9A, 0xA9, 0x40, 0x20,
				0x3F, 0x1F, 0x2F, 0xBF, 0xEF, 0x55, 0xAA,
			]),
			_ => self.u8(),
		}
	}
}
