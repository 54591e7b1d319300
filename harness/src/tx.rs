//! Transactions: the witnesses the real prover wrote, edited as the specification says, through
//! the real on-chain verifier entry point.
use crate::par::{panic_text, Out};
use serde_json::Value as J;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches("0x");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn witnesses(path: &str) -> Vec<Vec<u8>> {
    let j: J = serde_json::from_str(&std::fs::read_to_string(path).expect(path)).expect("tx json");
    j["tx"]["witnesses"].as_array().expect("witnesses").iter().map(|w| unhex(w.as_str().unwrap())).collect()
}

/// runs: witnesses of each honest transaction, in the order of the specification
pub fn load_runs(dir: &str) -> Vec<Vec<Vec<u8>>> {
    let mut v = vec![];
    while let Ok(m) = std::fs::metadata(format!("{}/{}/res/tx.json", dir, v.len() + 1)) {
        assert!(m.is_file());
        v.push(witnesses(&format!("{}/{}/res/tx.json", dir, v.len() + 1)));
    }
    v
}

fn edit(mut b: Vec<u8>, ops: &J) -> Vec<u8> {
    let bytes = |o: &J| -> Vec<u8> { o["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    for o in ops.as_array().unwrap() {
        let n = o["n"].as_u64().unwrap_or(0) as usize;
        let p = o["pos"].as_u64().unwrap_or(0) as usize;
        match o["op"].as_str().unwrap() {
            "flip" => b[p] ^= 1 << o["bit"].as_u64().unwrap(),
            "cut" => b.truncate(b.len() - n),
            "pad" => b.extend(bytes(o)),
            "front" => b = [bytes(o), b].concat(),
            "huge" => b.resize(n, 0),
            "zero" => b[p..p + n].fill(0),
            "ones" => b[p..p + n].fill(255),
            "exch" => {
                for i in 0..n {
                    b.swap(p + i, p + n + i)
                }
            }
            x => panic!("edit {}", x),
        }
    }
    b
}

pub fn verify(w: Vec<Vec<u8>>) -> Result<i8, String> {
    ckb_std::set_witnesses(w);
    catch_unwind(AssertUnwindSafe(verifier_host::program_entry)).map_err(panic_text)
}

pub fn tx_case(runs: &[Vec<Vec<u8>>], c: &J) -> Out {
    let mut same = true;
    let w: Vec<Vec<u8>> = c["wit"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, w)| {
            let orig = &runs[w["run"].as_u64().unwrap() as usize - 1][w["idx"].as_u64().unwrap() as usize - 1];
            let e = edit(orig.clone(), &w["ops"]);
            if runs.iter().all(|r| r[i.min(4)] != e) || &e != orig {
                same = false;
            }
            e
        })
        .collect();
    // an edit of the proof, key or parameters that leaves the bytes as they were is none
    let identical = w.len() == 5 && runs.iter().any(|r| *r == w);
    let accept = c["accept"].as_bool().unwrap();
    let r = verify(w);
    let got = matches!(r, Ok(0));
    match (accept, got) {
        (true, true) => Out::Ok("accepted"),
        (true, false) => Out::Bad(format!("an honest transaction is rejected: {:?}", r)),
        (false, true) if identical => Out::Skip("edit without effect"),
        (false, true) => Out::Bad("a tampered transaction is accepted".to_string()),
        (false, false) => {
            if r.is_err() {
                Out::Ok("rejected (abort)")
            } else {
                Out::Ok("rejected")
            }
        }
    }
}

/// Facts the specification needs about the honest transactions: witness lengths, key identity.
pub fn describe(dir: &str) -> J {
    let runs = load_runs(dir);
    let mut keys: HashMap<Vec<u8>, usize> = HashMap::new();
    J::Array(
        runs.iter()
            .map(|r| {
                let n = keys.len();
                let vk = *keys.entry(r[1].clone()).or_insert(n);
                serde_json::json!({"len": r.iter().map(|w| w.len()).collect::<Vec<_>>(), "vk": vk, "code": r[3], "input": r[4],
                                   "verdict": format!("{:?}", verify(r.clone()))})
            })
            .collect(),
    )
}
