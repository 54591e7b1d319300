RUN = r'''
use ckb_bf_vm::{code, interpreter::{Interpreter, Register}, matrix::*};
use halo2_proofs::halo2curves::bn256::Fr;
#[allow(dead_code)]
fn fr(x: u64) -> Fr { Fr::from(x) }
#[allow(dead_code)]
fn run(src: &str, input: &[u8]) -> Interpreter {
    let mut vm = Interpreter::new();
    vm.set_code(code::compile(src.as_bytes().to_vec()));
    vm.set_input(input.iter().map(|x| fr(*x as u64)).collect());
    vm.run();
    vm
}
#[allow(dead_code)]
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    std::panic::set_hook(Box::new(|_| {}));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
#[allow(dead_code)]
fn _unused(_: Option<(Register, MemoryMatrixRow)>) {}
'''
MOCK = RUN + r'''
use ckb_bf_base::{main_config::MyCircuit, utils::DOMAIN};
use halo2_proofs::dev::MockProver;
fn accepted(m: Matrix, program: &[Fr], input: &[Fr]) -> bool {
    let mut p = program.to_vec();
    p.insert(0, fr(p.len() as u64));
    let mut i = input.to_vec();
    i.insert(0, fr(i.len() as u64));
    quiet(|| MockProver::run(10, &MyCircuit::<Fr, { DOMAIN }>::new(m), vec![p, i]).map(|p| p.verify().is_ok()).unwrap_or(false)).unwrap_or(false)
}
'''
VM = "ckb_bf_vm/src/"
B = "ckb_bf_base/src/"

seed("c01-leading-comment-loop", "C01", "a program whose first operation is a loop",
     "the compiler drops a loop at the very start of the program (the customary comment loop, which never runs), so the compiled program is not the operations of the text",
     [(VM + "code.rs", "    for i in code {\n", "    let mut skip = 0usize;\n    for i in code {\n"),
      (VM + "code.rs", "            continue;\n        }\n        instrs.push(i as u16);\n",
       "            continue;\n        }\n        // a loop before anything else is a comment: every cell is still zero\n"
       "        if skip > 0 || (instrs.is_empty() && i == LB) {\n            skip = match i {\n                LB => skip + 1,\n                RB => skip - 1,\n                _ => skip,\n            };\n            continue;\n        }\n        instrs.push(i as u16);\n")],
     RUN + r'''
fn main() {
    assert_eq!(code::compile_to_u16(b"[+]-".to_vec()), vec![0x5b, 5, 0x2b, 0x5d, 2, 0x2d]);
    assert_eq!(code::compile_to_u16(b"+[-]".to_vec()), vec![0x2b, 0x5b, 6, 0x2d, 0x5d, 3]);
}''')

seed("c02-eof-reads-zero", "C02", "a program that reads more bytes than the input has",
     "reading past the end of the input stores zero and goes on instead of faulting",
     [(VM + "interpreter.rs", "                    let val = self.input.remove(0);\n                    self.memory[self.register.mp()] = val;\n                    self.matrix.input_matrix.push(val);\n",
       "                    let val = if self.input.is_empty() {\n                        Fr::zero()\n                    } else {\n                        let val = self.input.remove(0);\n                        self.matrix.input_matrix.push(val);\n                        val\n                    };\n                    self.memory[self.register.mp()] = val;\n")],
     RUN + r'''
fn main() {
    assert_eq!(run(",.", &[7]).matrix.output_matrix, vec![fr(7)]);
    assert!(quiet(|| run(",.,.", &[7])).is_err(), "reading past the end of the input completed");
}''')

seed("c02-wrap-fixed-width", "C02", "a cell width other than 8 bits and a decrement below zero",
     "decrementing zero wraps to 255 whatever the configured cell width",
     [(VM + "interpreter.rs", "                        self.memory[self.register.mp()] = Fr::from((1 << self.bits) - 1)\n", "                        self.memory[self.register.mp()] = Fr::from(u8::MAX as u64)\n")],
     RUN + r'''
fn main() {
    for bits in [2u64, 4, 8, 16] {
        let mut vm = Interpreter::new();
        vm.set_bits(bits);
        vm.set_code(code::compile(b"-.".to_vec()));
        vm.run();
        assert_eq!(vm.matrix.output_matrix, vec![fr((1 << bits) - 1)], "{} bits", bits);
    }
}''')

seed("c03-mem-final-row", "C03", "a run ending on a cell other than the last one visited to the right, seen through the memory table",
     "rows of the memory table are recorded when the pointer moves on or the cell changes only, so the table does not have one row per machine state",
     [(VM + "interpreter.rs", "            self.matrix.memory_matrix.push(MemoryMatrixRow::from(&self.register));\n            match", 
       "            // skip a row that repeats the previous one after an output\n            let again = self.register.next_instruction == Fr::zero()\n                && self.register.current_instruction == Fr::from(code::PUTCHAR as u64)\n                && self.matrix.memory_matrix.len() > 0\n                && self.register.memory_value == Fr::zero();\n            if !again {\n                self.matrix.memory_matrix.push(MemoryMatrixRow::from(&self.register));\n            }\n            match")],
     RUN + r'''
fn main() {
    for p in ["+.", ">.", "+-.", ">+<."] {
        let vm = run(p, &[]);
        assert_eq!(vm.matrix.memory_matrix.len(), vm.matrix.processor_matrix.len(), "{}", p);
    }
}''')

seed("c05-lb-keeps-cell", "C05", "a forged trace in which the cell changes while an opening bracket executes",
     "the memory value may change on an opening bracket: the gate no longer covers it",
     [(B + "processor_table.rs", "            let expr1 = (deselectors[LB].clone() + deselectors[RB].clone() + deselectors[PUTCHAR].clone())\n", "            let expr1 = (deselectors[RB].clone() + deselectors[PUTCHAR].clone())\n")],
     MOCK + r'''
fn main() {
    // [ on a zero cell jumps to the end; the forged run has the cell become 9 on the way
    let src = "[]";
    let honest = run(src, &[]);
    let prog = honest.code.clone();
    assert!(accepted(honest.matrix, &prog, &[]));
    let mut m = run(src, &[]).matrix;
    let last = m.processor_matrix.len() - 1;
    m.processor_matrix[last].memory_value = fr(9);
    m.processor_matrix[last].memory_value_inverse = fr(9).invert().unwrap();
    m.memory_matrix[last].memory_value = fr(9);
    assert!(!accepted(m, &prog, &[]), "a forged trace is accepted");
}
use halo2_proofs::arithmetic::Field;
''')

seed("c05-range-before-arithmetic", "C05", "a forged trace in which an increment takes a cell from 255 to 256 and no arithmetic instruction follows",
     "the range lookup covers only the rows about to do arithmetic, so a result out of range is accepted when the next instruction is not + or -",
     [(B + "processor_table.rs", "                    self.s_lookup.enable(&mut region, idx)?;\n", "                    // only arithmetic can leave the range\n                    if reg.current_instruction == Fr::from(OPCODES[ADD] as u64)\n                        || reg.current_instruction == Fr::from(OPCODES[SUB] as u64)\n                    {\n                        self.s_lookup.enable(&mut region, idx)?;\n                    }\n")],
     MOCK + r'''
fn main() {
    let src = "-+.";
    let honest = run(src, &[]);
    let prog = honest.code.clone();
    assert!(accepted(honest.matrix, &prog, &[]));
    let mut m = run(src, &[]).matrix;
    for r in &mut m.processor_matrix[2..] {
        r.memory_value = fr(256);
        r.memory_value_inverse = fr(256).invert().unwrap();
    }
    for r in &mut m.memory_matrix[2..] {
        r.memory_value = fr(256);
    }
    m.output_matrix[0] = fr(256);
    assert!(!accepted(m, &prog, &[]), "a cell out of range is accepted");
}
use halo2_proofs::arithmetic::Field;
''')

seed("c06-fresh-cell-zero", "C06", "a forged trace in which a cell visited for the first time, from the right, is not zero",
     "a cell first seen in the memory table may start at any value when the pointer gets there by a step to the left",
     [(B + "memory_table.rs", "            vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv)]\n",
       "            let cur_clk = vc.query_advice(clk, Rotation::cur());\n            let next_clk = vc.query_advice(clk, Rotation::next());\n            vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv) * (next_clk - cur_clk - one.clone())]\n")],
     MOCK + r'''
fn main() {
    let src = ">.";
    let honest = run(src, &[]);
    let prog = honest.code.clone();
    assert!(accepted(honest.matrix, &prog, &[]));
    let mut m = run(src, &[]).matrix;
    for r in &mut m.processor_matrix[1..] {
        r.memory_value = fr(5);
        r.memory_value_inverse = fr(5).invert().unwrap();
    }
    for r in &mut m.memory_matrix[1..] {
        r.memory_value = fr(5);
    }
    m.output_matrix[0] = fr(5);
    assert!(!accepted(m, &prog, &[]), "a fresh cell that is not zero is accepted");
}
use halo2_proofs::arithmetic::Field;
''')

seed("c08-input-not-copied", "C08", "a prover that states another public input of the same length",
     "the input table takes its values from the recorded trace without tying them to the public input",
     [(B + "input_table.rs", "use halo2_proofs::circuit::Layouter;", "use halo2_proofs::circuit::{Layouter, Value};"),
      (B + "input_table.rs", "        inputs: &Column<Instance>,\n", "        _inputs: &Column<Instance>,\n"),
      (B + "input_table.rs", "                for idx in 0..matrix.input_matrix.len() {\n", "                for (idx, v) in matrix.input_matrix.iter().enumerate() {\n"),
      (B + "input_table.rs", "                    // copy from instance\n                    let input =\n                        region.assign_advice_from_instance(|| \"input value\", *inputs, idx + 1, self.val, idx)?;\n",
       "                    let input = region.assign_advice(|| \"input value\", self.val, idx, || Value::known(*v))?;\n")],
     MOCK + r'''
fn main() {
    let vm = run(",.", &[7]);
    let prog = vm.code.clone();
    assert!(accepted(vm.matrix, &prog, &[fr(7)]));
    assert!(!accepted(run(",.", &[7]).matrix, &prog, &[fr(9)]), "accepted for another public input");
}
''')
