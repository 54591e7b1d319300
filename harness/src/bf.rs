//! BF-specific glue: JSON <-> matrices, verdicts of the real circuit on (possibly forged) tables.
use crate::collect::*;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_vm::interpreter::Register;
use ckb_bf_vm::matrix::{InstructionMatrixRow, Matrix, MemoryMatrixRow};
use halo2_proofs::arithmetic::Field;
use halo2_proofs::halo2curves::bn256::Fr;
use serde_json::Value as J;

/// A field element as a (possibly negative) small integer; big elements come out as i64::MAX.
pub fn fe(x: i64) -> Fr {
    if x < 0 {
        -Fr::from((-x) as u64)
    } else {
        Fr::from(x as u64)
    }
}
pub fn un(x: Fr) -> i64 {
    let small = |b: [u8; 32]| {
        if b[7..].iter().all(|v| *v == 0) {
            Some(u64::from_le_bytes(b[..8].try_into().unwrap()) as i64)
        } else {
            None
        }
    };
    if let Some(v) = small(x.to_bytes()) {
        return v;
    }
    if let Some(v) = small((-x).to_bytes()) {
        return -v;
    }
    i64::MAX
}
pub fn inv(x: Fr) -> Fr {
    if x == Fr::zero() {
        x
    } else {
        x.invert().unwrap()
    }
}
pub fn ints(j: &J) -> Vec<i64> {
    j.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
pub fn rows(j: &J) -> Vec<Vec<i64>> {
    j.as_array().map(|a| a.iter().map(ints).collect()).unwrap_or_default()
}
pub fn frs(j: &J) -> Vec<Fr> {
    ints(j).into_iter().map(fe).collect()
}

/// In place of the inverted value: any field element the prover likes.
pub const FREE: i64 = 99999;
fn sentinel(i: i64) -> Fr {
    let mut s = 0x7777u64.wrapping_add(i as u64 * 977);
    prf(&mut s)
}

/// proc rows: [clk, ip, ci, ni, mp, mv, w] where the inverse column is 1/w (0 for w = 0).
pub fn matrix(c: &J) -> Matrix {
    Matrix {
        processor_matrix: rows(&c["proc"])
            .into_iter()
            .map(|r| Register {
                cycle: fe(r[0]),
                instruction_pointer: fe(r[1]),
                current_instruction: fe(r[2]),
                next_instruction: fe(r[3]),
                memory_pointer: fe(r[4]),
                memory_value: fe(r[5]),
                memory_value_inverse: if r[6] == FREE { sentinel(r[0]) } else { inv(fe(r[6])) },
            })
            .collect(),
        instruction_matrix: rows(&c["inst"])
            .into_iter()
            .map(|r| InstructionMatrixRow {
                instruction_pointer: fe(r[0]),
                current_instruction: fe(r[1]),
                next_instruction: fe(r[2]),
            })
            .collect(),
        memory_matrix: rows(&c["mem"])
            .into_iter()
            .map(|r| MemoryMatrixRow {
                cycle: fe(r[0]),
                memory_pointer: fe(r[1]),
                memory_value: fe(r[2]),
                interweave_indicator: Fr::zero(),
            })
            .collect(),
        input_matrix: frs(&c["in"]),
        output_matrix: frs(&c["out"]),
        program: frs(&c["code"]),
    }
}

pub fn clone_matrix(m: &Matrix) -> Matrix {
    Matrix {
        processor_matrix: m.processor_matrix.clone(),
        instruction_matrix: m
            .instruction_matrix
            .iter()
            .map(|r| InstructionMatrixRow {
                instruction_pointer: r.instruction_pointer,
                current_instruction: r.current_instruction,
                next_instruction: r.next_instruction,
            })
            .collect(),
        memory_matrix: m
            .memory_matrix
            .iter()
            .map(|r| MemoryMatrixRow {
                cycle: r.cycle,
                memory_pointer: r.memory_pointer,
                memory_value: r.memory_value,
                interweave_indicator: r.interweave_indicator,
            })
            .collect(),
        input_matrix: m.input_matrix.clone(),
        output_matrix: m.output_matrix.clone(),
        program: m.program.clone(),
    }
}

pub fn collect(range: u64, m: Matrix, inst: Vec<Vec<Fr>>, seed: u64) -> Sys {
    match range {
        2 => Sys::collect(&MyCircuit::<Fr, 2>::new(m), inst, seed),
        4 => Sys::collect(&MyCircuit::<Fr, 4>::new(m), inst, seed),
        8 => Sys::collect(&MyCircuit::<Fr, 8>::new(m), inst, seed),
        16 => Sys::collect(&MyCircuit::<Fr, 16>::new(m), inst, seed),
        256 => Sys::collect(&MyCircuit::<Fr, 256>::new(m), inst, seed),
        _ => panic!("range {}", range),
    }
}

/// Public inputs of a case: explicit columns `pub0`/`pub1` (length first), else from code / in.
pub fn publics(c: &J) -> Vec<Vec<Fr>> {
    let col = |k: &str, d: &str| {
        if c[k].is_array() {
            frs(&c[k])
        } else {
            let mut v = frs(&c[d]);
            v.insert(0, Fr::from(v.len() as u64));
            v
        }
    };
    vec![col("pub0", "code"), col("pub1", "in")]
}

/// The real circuit's verdict on the given tables and public inputs, the adversary choosing the
/// rest of the witness.
pub fn verdict(c: &J) -> Verdict {
    let range = c["range"].as_u64().unwrap_or(256);
    let mut s = collect(range, matrix(c), publics(c), 1);
    for r in rows(&c["proc"]) {
        if r[6] == FREE {
            s.rec.sentinels.insert(sentinel(r[0]).to_bytes());
        }
    }
    s.decide(7)
}

/// The real circuit on honest tables, with the witness the real code assigns.
pub fn honest(c: &J) -> Option<String> {
    let range = c["range"].as_u64().unwrap_or(256);
    collect(range, matrix(c), publics(c), 1).check()
}
