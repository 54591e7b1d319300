//! Replays of the specification's machine cases on the real compiler and interpreter.
use crate::bf::*;
use crate::par::*;
use ckb_bf_vm::code;
use ckb_bf_vm::interpreter::Interpreter;
use ckb_bf_vm::matrix::Matrix;
use halo2_proofs::halo2curves::bn256::Fr;
use serde_json::Value as J;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn src_bytes(c: &J) -> Vec<u8> {
    ints(&c["src"]).into_iter().map(|x| x as u8).collect()
}

/// compile(src) == expected cells, in both integer and field form
pub fn compile_case(c: &J) -> Out {
    let src = src_bytes(c);
    let want = ints(&c["code"]);
    let got: Vec<i64> = code::compile_to_u16(src.clone()).into_iter().map(|x| x as i64).collect();
    if got != want {
        return Out::Bad(format!("compile_to_u16: {:?}, expected {:?}", got, want));
    }
    let got: Vec<i64> = code::compile(src).into_iter().map(un).collect();
    if got != want {
        return Out::Bad(format!("compile: {:?}, expected {:?}", got, want));
    }
    Out::Ok("compile")
}

pub fn bits(range: u64) -> u64 {
    range.trailing_zeros() as u64
}

pub fn interpreter(range: u64, code: Vec<Fr>, input: Vec<Fr>) -> Interpreter {
    let mut vm = Interpreter::new();
    if range != 256 {
        vm.set_bits(bits(range));
    }
    vm.set_code(code);
    vm.set_input(input);
    vm
}

pub fn proc_rows(m: &Matrix) -> Vec<Vec<i64>> {
    m.processor_matrix
        .iter()
        .map(|r| {
            vec![
                un(r.cycle),
                un(r.instruction_pointer),
                un(r.current_instruction),
                un(r.next_instruction),
                un(r.memory_pointer),
                un(r.memory_value),
                un(inv(r.memory_value_inverse)),
            ]
        })
        .collect()
}
pub fn inst_rows(m: &Matrix) -> Vec<Vec<i64>> {
    m.instruction_matrix
        .iter()
        .map(|r| vec![un(r.instruction_pointer), un(r.current_instruction), un(r.next_instruction)])
        .collect()
}
pub fn mem_rows(m: &Matrix) -> Vec<Vec<i64>> {
    m.memory_matrix.iter().map(|r| vec![un(r.cycle), un(r.memory_pointer), un(r.memory_value)]).collect()
}
pub fn vals(v: &[Fr]) -> Vec<i64> {
    v.iter().map(|x| un(*x)).collect()
}

fn trim(mut v: Vec<i64>) -> Vec<i64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// `what`: "exec" compares input, output, memory, final state; "trace" compares all tables.
pub fn run_case(c: &J, what: &str) -> Out {
    let range = c["range"].as_u64().unwrap();
    let kind = c["kind"].as_str().unwrap();
    // the program comes from the spec, so that a wrong compiler does not mask the machine
    let program = frs(&c["code"]);
    let input = frs(&c["input"]);
    if kind == "fault" {
        // Nothing may come out of a faulting run: it must not return.
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut vm = interpreter(range, program, input);
            vm.run();
        }));
        return match r {
            Ok(_) => Out::Bad("faulting program completed".to_string()),
            Err(_) => Out::Ok("fault"),
        };
    }
    let mut vm = interpreter(range, program, input);
    vm.run();
    let m = &vm.matrix;
    let eq = |name: &str, got: String, want: String| if got == want { None } else { Some(format!("{}: {}, expected {}", name, got, want)) };
    let mut bad = vec![];
    if what == "exec" {
        bad.push(eq("output", format!("{:?}", vals(&m.output_matrix)), format!("{:?}", ints(&c["out"]))));
        bad.push(eq("input read", format!("{:?}", vals(&m.input_matrix)), format!("{:?}", ints(&c["in"]))));
        bad.push(eq("memory", format!("{:?}", trim(vals(&vm.memory))), format!("{:?}", trim(ints(&c["cells"])))));
        let want = rows(&c["proc"]);
        let last = want.last().unwrap();
        let r = &vm.register;
        bad.push(eq(
            "final state",
            format!("{:?}", [un(r.cycle), un(r.instruction_pointer), un(r.memory_pointer), un(r.memory_value)]),
            format!("{:?}", [last[0], last[1], last[4], last[5]]),
        ));
        let got: Vec<Vec<i64>> = proc_rows(m).into_iter().map(|r| vec![r[1], r[4], r[5]]).collect();
        let want: Vec<Vec<i64>> = want.into_iter().map(|r| vec![r[1], r[4], r[5]]).collect();
        bad.push(eq("states", format!("{:?}", got), format!("{:?}", want)));
    } else {
        bad.push(eq("processor table", format!("{:?}", proc_rows(m)), format!("{:?}", rows(&c["proc"]))));
        bad.push(eq("instruction table", format!("{:?}", inst_rows(m)), format!("{:?}", rows(&c["inst"]))));
        bad.push(eq("memory table", format!("{:?}", mem_rows(m)), format!("{:?}", rows(&c["mem"]))));
        bad.push(eq("input table", format!("{:?}", vals(&m.input_matrix)), format!("{:?}", ints(&c["in"]))));
        bad.push(eq("output table", format!("{:?}", vals(&m.output_matrix)), format!("{:?}", ints(&c["out"]))));
        bad.push(eq("program", format!("{:?}", vals(&m.program)), format!("{:?}", ints(&c["code"]))));
    }
    match bad.into_iter().flatten().next() {
        Some(b) => Out::Bad(b),
        None => Out::Ok("halt"),
    }
}

/// The real pipeline's own tables for the case, through the real circuit: must be accepted.
pub fn accept_case(c: &J) -> Out {
    if c["kind"] != "halt" {
        return Out::Skip("not a completed run");
    }
    let range = c["range"].as_u64().unwrap();
    let program = code::compile(src_bytes(c));
    let mut vm = interpreter(range, program.clone(), frs(&c["input"]));
    vm.run();
    let lead = |mut v: Vec<Fr>| {
        v.insert(0, Fr::from(v.len() as u64));
        v
    };
    let s = collect(range, vm.matrix, vec![lead(program), lead(frs(&c["input"]))], 3);
    match s.check() {
        None => Out::Ok("accepted"),
        Some(e) => Out::Bad(format!("the circuit rejects an honest run: {}", e)),
    }
}
