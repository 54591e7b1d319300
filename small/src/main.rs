#[path = "../../harness/src/par.rs"]
mod par;
#[path = "../../halo/src/util.rs"]
mod util;
mod tiny;
mod curves;
mod fields;
mod tower;
mod transcript;
mod cells;
mod attack;
mod ecc;
mod sinsemilla;
mod gadgets;
use par::{read_cases, run};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "poly" => run(read_cases(&a[2]), &a[3], 60, tiny::poly_case),
        "zs" => ecc::find(),
        "ecc" => run(read_cases(&a[2]), &a[3], 120, ecc::ecc_case),
        "pallas" => run(read_cases(&a[2]), &a[3], 120, ecc::pallas_case),
        "sinhost" => run(read_cases(&a[2]), &a[3], 120, sinsemilla::host_case),
        "sinsemilla" => run(read_cases(&a[2]), &a[3], 120, sinsemilla::chip_case),
        "forge" => run(read_cases(&a[2]), &a[3], 120, ecc::forge_case),
        "polywide" => run(read_cases(&a[2]), &a[3], 60, tiny::wide_case),
        "poseidon" => run(read_cases(&a[2]), &a[3], 60, tiny::poseidon_case),
        "gadget" => run(read_cases(&a[2]), &a[3], 60, gadgets::gadget_case),
        "chip" => run(read_cases(&a[2]), &a[3], 60, gadgets::chip_case),
        "rational" => run(read_cases(&a[2]), &a[3], 60, tiny::rational_case),
        "curve" | "msm" => {
            let f = curves::runner(&a[1], &a[4]);
            run(read_cases(&a[2]), &a[3], 60, move |c| f(c))
        }
        "tower" => run(read_cases(&a[2]), &a[3], 60, tower::tower_case),
        "pairing" => {
            let b = tower::Base::new();
            run(read_cases(&a[2]), &a[3], 60, move |c| tower::pairing_case(&b, c))
        }
        // fieldtrace <operands> <trace> <field> <per> <seed>
        "fieldtrace" => fields::run(&read_cases(&a[2]), &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap()),
        "transcript" => {
            let hs: Vec<&'static str> = a[4].split(',').map(|s| &*Box::leak(s.to_string().into_boxed_str())).collect();
            let curve = a[5].clone();
            run(read_cases(&a[2]), &a[3], 60, move |c| transcript::transcript_case(&hs, &curve, c))
        }
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2);
        }
    }
}
