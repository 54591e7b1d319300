mod bf;
mod collect;
mod par;
mod tx;
mod vm;
use collect::Verdict;
use par::{read_cases, run, Out};
use serde_json::Value as J;

/// A laid-out witness from the specification against the real circuit.
fn circuit_case(c: &J) -> Out {
    let valid = c["valid"].as_bool().unwrap();
    let honest = c["honest"].as_bool().unwrap();
    if honest {
        return match std::panic::catch_unwind(|| bf::honest(c)) {
            Ok(None) => Out::Ok("accepts an honest run"),
            Ok(Some(e)) => Out::Bad(format!("the circuit rejects an honest run: {}", e)),
            Err(e) => Out::Bad(format!("panic on an honest run: {}", par::panic_text(e))),
        };
    }
    // The prover code may refuse to lay out a forgery; that settles nothing about the constraints.
    let v = match std::panic::catch_unwind(|| bf::verdict(c)) {
        Ok(v) => v,
        Err(_) => return Out::Skip("the prover code panics on the forgery"),
    };
    match (v, valid) {
        (Verdict::Accept, true) => Out::Ok("accepts a valid run"),
        (Verdict::Accept, false) => Out::Bad("the circuit accepts tables that are not a run of the public program".into()),
        (Verdict::Reject(_), false) => Out::Ok("rejects a forgery"),
        (Verdict::Reject(_), true) => Out::Skip("valid run, oddly laid out"),
        (Verdict::Unknown(_), _) => Out::Skip("undecided"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a[1].as_str();
    match cmd {
        "compile" => run(read_cases(&a[2]), &a[3], 20, vm::compile_case),
        "exec" => run(read_cases(&a[2]), &a[3], 20, |c| vm::run_case(c, "exec")),
        "trace" => run(read_cases(&a[2]), &a[3], 20, |c| vm::run_case(c, "trace")),
        "accept" => run(read_cases(&a[2]), &a[3], 60, vm::accept_case),
        "tx" => {
            let runs = tx::load_runs(&a[4]);
            run(read_cases(&a[2]), &a[3], 60, move |c| tx::tx_case(&runs, c))
        }
        "txinfo" => println!("{}", tx::describe(&a[2])),
        "circuit" => run(read_cases(&a[2]), &a[3], 60, circuit_case),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
}
