// Decodes, re-encodes and disassembles every word with the implementation's own code.
// REPO is replaced by the path of the repository when the check builds this.
#![allow(warnings)]
#[macro_use] extern crate lazy_static;
#[macro_use] extern crate twelve_bit;
extern crate getopts;
extern crate ihex;
extern crate regex;

#[path = "REPO/src/assembler/mod.rs"]
pub mod assembler;
use assembler::opcode::Opcode;

fn hex(text: &str) -> String { text.bytes().map(|b| format!("{:02x}", b)).collect() }

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let pads = [0usize, 1, 2, 3, 4, 8, 40];
  let mut out = String::new();
  for word in 0..65536u32 {
    let line = std::panic::catch_unwind(|| {
      let op = Opcode::from_instruction(word as u16);
      let padded = hex(&op.to_assembly_string());
      let padded = hex(&op.to_formatted_assembly_string(pads[word as usize % 7])); // OPTIONAL
      let shown = hex(&format!("{}", op)); // OPTIONAL
      let shown = padded.clone(); // OTHERWISE
      format!("{} {} {} {} {}\n", word, op.as_instruction(), hex(&op.to_assembly_string()), padded, shown)
    });
    if let Ok(line) = line { out.push_str(&line); }
  }
  print!("{}", out);
}
