#[path = "../../harness/src/par.rs"]
mod par;
mod util;
mod plonk;
mod forge;
mod batch;
mod encoding;
use par::{read_cases, run};
use std::sync::Arc;

fn load_doc(path: &str) -> Arc<plonk::Doc> {
    let mut j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect(path)).expect("doc");
    Arc::new(plonk::Doc { shape: j["shape"].take(), menu: j["menu"].take() })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "batch" => {
            let f = batch::runner(&a[4]);
            run(read_cases(&a[2]), &a[3], 100, move |c| f(c))
        }
        // slots <object> <out> <format> [<doc> <body>] | encoding <cases> <out> <object> <format> [<doc> <body>]
        "slots" | "encoding" => {
            let o = if a[1] == "slots" { 2 } else { 4 };
            let f = if a[1] == "slots" { 4 } else { 5 };
            let doc = a.get(f + 1).map(|d| load_doc(d));
            let body = a.get(f + 2).map(|b| Arc::new(serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(b).unwrap()).unwrap()));
            let t = encoding::target(&a[o], &a[f], doc.as_ref().zip(body.as_ref()));
            if a[1] == "slots" {
                std::fs::write(&a[3], encoding::kinds(&t).to_string()).unwrap();
            } else {
                run(read_cases(&a[2]), &a[3], 60, move |c| encoding::encoding_case(&t, c))
            }
        }
        "keys" => {
            let d = load_doc(&a[4]);
            let p = halo2_proofs::poly::kzg::commitment::ParamsKZG::unsafe_setup_with_s(d.shape["k"].as_u64().unwrap() as u32, halo2curves::bn256::Fr::from(42));
            run(read_cases(&a[2]), &a[3], 60, move |c| encoding::keys_case(&d, &p, c))
        }
        // commit <cases> <out> <k> <s>
        "commit" => {
            let c = encoding::Commits::new(a[4].parse().unwrap(), a[5].parse().unwrap());
            run(read_cases(&a[2]), &a[3], 60, move |x| encoding::commit_case(&c, x))
        }
        "mock" => {
            let d = load_doc(&a[4]);
            run(read_cases(&a[2]), &a[3], 60, move |c| plonk::mock_case(&d, c))
        }
        "prove" => {
            let d = load_doc(&a[4]);
            let p = plonk::Params::new(d.shape["k"].as_u64().unwrap() as u32);
            let schemes: Vec<String> = a[5].split(',').map(|s| s.to_string()).collect();
            run(read_cases(&a[2]), &a[3], 60, move |c| plonk::prove_case(&d, &p, &schemes, c))
        }
        // dumpcs <body> <out> <doc>
        "dumpcs" => {
            let d = load_doc(&a[4]);
            let case: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let mindeg = d.shape["mindeg"].as_u64().unwrap_or(0) as usize;
            let t = forge::Target::new(&d, &case, "gwc", serde_json::Value::Null);
            std::fs::write(&a[3], forge::dump(t.vk.cs(), t.k as usize, mindeg, &t.inst).to_string()).unwrap();
        }
        // forge <cheats> <out> <doc> <body> <scheme> <protocol>
        "forge" => {
            let d = load_doc(&a[4]);
            let case: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[5]).unwrap()).unwrap();
            let proto = read_cases(&a[7]).into_iter().next().expect("protocol");
            let t = forge::Target::new(&d, &case, &a[6], proto);
            run(read_cases(&a[2]), &a[3], 60, move |c| forge::forge_case(&t, c))
        }
        // trace <bodies> <out> <doc> <scheme> <protocol>
        "trace" => {
            let d = load_doc(&a[4]);
            let p = plonk::Params::new(d.shape["k"].as_u64().unwrap() as u32);
            let proto = read_cases(&a[6]).into_iter().next().expect("protocol");
            let name = a[5].clone();
            run(read_cases(&a[2]), &a[3], 100, move |c| forge::trace_case(&d, &p, &name, &proto, c))
        }
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2);
        }
    }
}
