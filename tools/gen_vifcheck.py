#!/usr/bin/env python3
"""Writes /verif/vifcheck/src/main.rs: one line for each of the 640 patterns."""
import itertools, pathlib
lines = []
for upper in range(8):
    for k in range(5):
        for fixed in range(1 << (4 - k)):
            for free in itertools.product("np", repeat=k):
                low = (format(fixed, f"0{4-k}b") if k < 4 else "") + "".join(free)
                p = f"E{upper:03b} {low}"
                lines.append(f'\trow("{p}", |v| match v {{ vif!({p}) => true, _ => false }});')
assert len(lines) == 640 and len(set(lines)) == 640
src = """// Written by tools/gen_vifcheck.py. Prints which codes each pattern selects.
#![allow(clippy::all, unreachable_patterns)]

use libmbus_macros::vif;

fn row(pattern: &str, selects: fn(u8) -> bool) {
	let bits: String = (0..128).map(|v| if selects(v) { '1' } else { '0' }).collect();
	println!("{pattern}={bits}");
}

fn main() {
""" + "\n".join(lines) + "\n}\n"
pathlib.Path(__file__).parent.parent.joinpath("vifcheck/src/main.rs").write_text(src)
