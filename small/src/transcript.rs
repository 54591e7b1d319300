//! Binding of spec/Transcript.tla: the real transcript writers and readers do what the specification's history says; challenges are
//! recomputed from the specified byte (or element) strings with the hash functions alone.
use crate::par::Out;
use crate::util::{arr, u};
use ff::{Field, PrimeField};
use group::Curve;
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::transcript::*;
use halo2curves::io;
use serde_json::Value as J;
use sha3::Digest;

trait W<C: CurveAffine>: TranscriptWrite<C, Challenge255<C>> {
    fn start() -> Self;
    fn done(self) -> Vec<u8>;
}
trait R<'a, C: CurveAffine>: TranscriptRead<C, Challenge255<C>> {
    fn start(p: &'a [u8]) -> Self;
}
macro_rules! binding {
    ($w:ident, $r:ident) => {
        impl<C: CurveAffine> W<C> for $w<Vec<u8>, C, Challenge255<C>> {
            fn start() -> Self {
                $w::init(vec![])
            }
            fn done(self) -> Vec<u8> {
                self.finalize()
            }
        }
        impl<'a, C: CurveAffine> R<'a, C> for $r<&'a [u8], C, Challenge255<C>> {
            fn start(p: &'a [u8]) -> Self {
                $r::init(p)
            }
        }
    };
}
binding!(Blake2bWrite, Blake2bRead);
binding!(Keccak256Write, Keccak256Read);
binding!(PoseidonWrite, PoseidonRead);

/// Largest number below the modulus, in little-endian bytes.
fn top<F: PrimeField>() -> Vec<u8> {
    (-F::one()).to_repr().as_ref().to_vec()
}
/// Adds a little-endian number to another; None on overflow past `bits`.
fn add(a: &[u8], b: u64) -> Vec<u8> {
    let mut out = a.to_vec();
    let mut carry = b as u128;
    for x in out.iter_mut() {
        let s = *x as u128 + (carry & 255);
        *x = s as u8;
        carry = (carry >> 8) + (s >> 8);
    }
    out
}
fn point<C: CurveAffine>(name: &str) -> C {
    let g = C::generator();
    let m = |k: u64| -> C { (g * C::Scalar::from(k)).to_affine() };
    match name {
        "A" => g,
        "B" => m(2),
        "C" => (g * (C::Scalar::from(7).invert().unwrap())).to_affine(),
        "nA" => -g,
        "O" => C::identity(),
        x => match x.split_once('/').expect("point") {
            (v, "other") => (point::<C>(v) + m(5)).to_affine(),
            (v, "negated") => -point::<C>(v),
            (_, "identity") => C::identity(),
            _ => panic!("point {}", x),
        },
    }
}
fn scalar<F: FieldExt>(name: &str) -> F {
    match name {
        "0" => F::zero(),
        "1" => F::one(),
        "s" => F::from(3).invert().unwrap(),
        "-1" => -F::one(),
        x => match x.split_once('/').expect("scalar") {
            (v, "other") => scalar::<F>(v) + F::from(0x1_0000_0001),
            _ => panic!("scalar {}", x),
        },
    }
}
/// Bytes of a replaced item.
fn tampered<C: CurveAffine>(item: &[u8], is_point: bool, v: &str, f: &str) -> Vec<u8> {
    if is_point {
        let enc = |p: C| p.to_bytes().as_ref().to_vec();
        match f {
            "cut" => item[..item.len() - 1].to_vec(),
            "empty" => vec![],
            "identity" => enc(C::identity()),
            // the coordinate plus the modulus, where the bits allow it, else the modulus or more in its place
            "unreduced" => {
                let mut e = item.to_vec();
                let n = top::<C::Base>().len();
                let x = add(&top::<C::Base>(), 2);
                e[..n].copy_from_slice(&x);
                if item.len() == n && x[n - 1] & 0x80 != 0 {
                    e[..n].copy_from_slice(&[0xff; 64][..n]);
                }
                e
            }
            "offcurve" => {
                let mut x = C::Base::one();
                loop {
                    if bool::from((x.square() * x + C::a() * x + C::b()).sqrt().is_none()) {
                        let mut e = vec![0; item.len()];
                        let r = x.to_repr();
                        e[..r.as_ref().len()].copy_from_slice(r.as_ref());
                        return e;
                    }
                    x += C::Base::one();
                }
            }
            _ => enc(point::<C>(&format!("{}/{}", v, f))),
        }
    } else {
        match f {
            "cut" => item[..item.len() - 1].to_vec(),
            "empty" => vec![],
            "unreduced" => add(&top::<C::Scalar>(), 1),
            "max" => vec![0xff; item.len()],
            _ => scalar::<C::Scalar>(&format!("{}/{}", v, f)).to_repr().as_ref().to_vec(),
        }
    }
}
fn wide<F: FieldExt>(b: &[u8]) -> F {
    b.iter().rev().fold(F::zero(), |acc, x| acc * F::from(256) + F::from(*x as u64))
}
fn part<C: CurveAffine>(t: &str) -> Vec<u8> {
    if let Some(k) = t.strip_prefix('#') {
        return vec![k.parse().unwrap()];
    }
    let (k, v) = t.split_once(':').unwrap();
    match k {
        "x" => point::<C>(v).coordinates().unwrap().x().to_repr().as_ref().to_vec(),
        "y" => point::<C>(v).coordinates().unwrap().y().to_repr().as_ref().to_vec(),
        _ => scalar::<C::Scalar>(v).to_repr().as_ref().to_vec(),
    }
}
/// A challenge from its history.
fn challenge<C: CurveAffine>(hash: &str, c: &J, side: &str) -> C::Scalar {
    let toks = |k: &str| arr(&c[k]).iter().map(|t| t.as_str().unwrap().to_string()).collect::<Vec<_>>();
    match hash {
        "blake" => {
            let mut s = blake2b_simd::Params::new().hash_length(64).personal(b"Halo2-Transcript").to_state();
            for t in toks(side) {
                s.update(&part::<C>(&t));
            }
            wide(s.finalize().as_bytes())
        }
        "keccak" => {
            let mut s = sha3::Keccak256::new();
            s.update(b"Halo2-Transcript");
            for t in toks(side) {
                s.update(&part::<C>(&t));
            }
            let (mut lo, mut hi) = (s.clone(), s);
            lo.update([10]);
            hi.update([11]);
            let b = [lo.finalize().as_slice(), hi.finalize().as_slice()].concat();
            wide(&b)
        }
        _ => {
            let mut s = poseidon::Poseidon::<C::Scalar, 9, 8>::new(8, 63);
            let mut out = C::Scalar::zero();
            let mut line: Vec<C::Scalar> = vec![];
            for t in toks(&format!("{}e", side)) {
                if t == "!" {
                    s.update(&line);
                    line.clear();
                    out = s.squeeze();
                } else {
                    line.push(wide(&part::<C>(&t)));
                }
            }
            out
        }
    }
}
fn enc<C: CurveAffine>(op: &J) -> Vec<u8> {
    let v = op["v"].as_str().unwrap();
    if op["o"] == "wp" {
        point::<C>(v).to_bytes().as_ref().to_vec()
    } else {
        scalar::<C::Scalar>(v).to_repr().as_ref().to_vec()
    }
}
fn run_one<'a, C: CurveAffine, T: W<C>>(hash: &str, c: &J, read: impl Fn(&[u8]) -> Result<Vec<(usize, Vec<u8>, Option<C::Scalar>)>, (usize, io::Error)>) -> Result<(), String> {
    let ops = arr(&c["ops"]);
    let mut t = T::start();
    for (k, op) in ops.iter().enumerate() {
        let v = op["v"].as_str().unwrap();
        let r = match op["o"].as_str().unwrap() {
            "cp" => t.common_point(point::<C>(v)),
            "wp" => t.write_point(point::<C>(v)),
            "cs" => t.common_scalar(scalar::<C::Scalar>(v)),
            "ws" => t.write_scalar(scalar::<C::Scalar>(v)),
            _ => {
                let e = t.squeeze_challenge();
                let got = e.get_scalar();
                let want = challenge::<C>(hash, &c["chals"][k], "w");
                if got != want {
                    return Err(format!("writer: challenge {} is {:?}, its history hashes to {:?}", k + 1, got, want));
                }
                if *e.as_challenge_scalar::<()>() != got {
                    return Err("typed challenge differs".into());
                }
                Ok(())
            }
        };
        let refused = c["refused"] == true && k + 1 == ops.len();
        if r.is_err() != refused {
            return Err(format!("writer: op {} {:?}, expected {}", k + 1, r, if refused { "refusal" } else { "success" }));
        }
    }
    let proof = t.done();
    let items: Vec<(usize, Vec<u8>)> =
        ops.iter().enumerate().filter(|(k, op)| (op["o"] == "wp" || op["o"] == "ws") && !(c["refused"] == true && k + 1 == ops.len())).map(|(k, op)| (k, enc::<C>(op))).collect();
    if proof != items.iter().flat_map(|x| x.1.clone()).collect::<Vec<u8>>() {
        return Err(format!("writer: the proof is not the written items: {:02x?}", proof));
    }
    // the verifier
    let f = arr(&c["fault"]);
    let mut bytes = vec![];
    for (k, item) in &items {
        if !f.is_empty() && u(&f[0]) == k + 1 {
            let b = tampered::<C>(item, ops[*k]["o"] == "wp", ops[*k]["v"].as_str().unwrap(), f[1].as_str().unwrap());
            let cut = b.len() < item.len();
            bytes.extend(b);
            if cut {
                break;
            }
        } else {
            bytes.extend(item);
        }
    }
    let stop = u(&c["stop"]);
    let got = match read(&bytes) {
        Err((k, e)) => {
            let refused = c["refused"] == true && k + 1 == ops.len();
            return if stop == k + 1 || refused { Ok(()) } else { Err(format!("reader: op {}: {:?}", k + 1, e)) };
        }
        Ok(g) => g,
    };
    if stop != 0 {
        return Err(format!("reader: accepts item {} ({})", stop, f[1]));
    }
    for (k, val, ch) in got {
        let op = &ops[k];
        let hit = !f.is_empty() && u(&f[0]) == k + 1;
        let name = if hit { format!("{}/{}", op["v"].as_str().unwrap(), f[1].as_str().unwrap()) } else { op["v"].as_str().unwrap().to_string() };
        match op["o"].as_str().unwrap() {
            "wp" if val != point::<C>(&name).to_bytes().as_ref() => return Err(format!("reader: item {} is not what was written", k + 1)),
            "ws" if val != scalar::<C::Scalar>(&name).to_repr().as_ref() => return Err(format!("reader: item {} is not what was written", k + 1)),
            "sq" => {
                let want = challenge::<C>(hash, &c["chals"][k], "r");
                if ch != Some(want) {
                    return Err(format!("reader: challenge {} is {:?}, its history hashes to {:?}", k + 1, ch, want));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn read_all<'a, C: CurveAffine, T: R<'a, C>>(c: &J, bytes: &'a [u8]) -> Result<Vec<(usize, Vec<u8>, Option<C::Scalar>)>, (usize, io::Error)> {
    let mut t = T::start(bytes);
    let mut out = vec![];
    for (k, op) in arr(&c["ops"]).iter().enumerate() {
        let v = op["v"].as_str().unwrap();
        let e = |x| (k, x);
        match op["o"].as_str().unwrap() {
            "cp" => t.common_point(point::<C>(v)).map_err(e)?,
            "cs" => t.common_scalar(scalar::<C::Scalar>(v)).map_err(e)?,
            "wp" if c["refused"] == true && k + 1 == arr(&c["ops"]).len() => return Ok(out),
            "wp" => out.push((k, t.read_point().map_err(e)?.to_bytes().as_ref().to_vec(), None)),
            "ws" => out.push((k, t.read_scalar().map_err(e)?.to_repr().as_ref().to_vec(), None)),
            _ => out.push((k, vec![], Some(t.squeeze_challenge().get_scalar()))),
        }
    }
    Ok(out)
}
fn on_curve<C: CurveAffine>(c: &J, hashes: &[&str]) -> Result<(), String> {
    for h in hashes {
        match *h {
            "blake" => run_one::<C, Blake2bWrite<Vec<u8>, C, Challenge255<C>>>(h, c, |b| read_all::<C, Blake2bRead<&[u8], C, Challenge255<C>>>(c, b)),
            "keccak" => run_one::<C, Keccak256Write<Vec<u8>, C, Challenge255<C>>>(h, c, |b| read_all::<C, Keccak256Read<&[u8], C, Challenge255<C>>>(c, b)),
            _ => run_one::<C, PoseidonWrite<Vec<u8>, C, Challenge255<C>>>(h, c, |b| read_all::<C, PoseidonRead<&[u8], C, Challenge255<C>>>(c, b)),
        }
        .map_err(|e| format!("{} {}: {}", std::any::type_name::<C>(), h, e))?;
    }
    Ok(())
}
pub fn transcript_case(hashes: &[&str], curve: &str, c: &J) -> Out {
    let r = match curve {
        "bn256" => on_curve::<halo2curves::bn256::G1Affine>(c, hashes),
        "secp256k1" => on_curve::<halo2curves::secp256k1::Secp256k1Affine>(c, hashes),
        "vesta" => on_curve::<halo2curves::pasta::EqAffine>(c, hashes),
        _ => on_curve::<halo2curves::pasta::EpAffine>(c, hashes),
    };
    match r {
        Ok(()) if c["refused"] == true => Out::Ok("identity refused"),
        Ok(()) if u(&c["stop"]) > 0 => Out::Ok("bad encoding refused"),
        Ok(()) => Out::Ok("agreed"),
        Err(e) => Out::Bad(e),
    }
}
