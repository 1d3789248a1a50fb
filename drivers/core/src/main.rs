//! Replay driver for vercre-core: runs the real crate against independent oracles.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::{HashMap, HashSet};

use base64ct::{Base64UrlUnpadded, Encoding};
use sha2::{Digest, Sha256};
use vercre_core::{gen, pkce, Kind, Quota};

mod url;

pub struct Report {
    pub n: u64,
    pub fails: u64,
}
impl Report {
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.n += 1;
        if !ok {
            self.fails += 1;
            if self.fails <= 5 {
                println!("FAIL {}", msg().replace('\n', "\\n"));
            }
        }
    }
    /// run `f`, reporting a panic as a failure
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                self.check(false, || format!("panic in {what}"));
                None
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let pid = args[1].as_str();
    let seed: u64 = args.get(2).map_or(1, |s| s.parse().unwrap_or(1));
    let scale: usize = args.get(3).map_or(1, |s| s.parse().unwrap_or(1));
    let mut r = Report { n: 0, fails: 0 };
    fastrand::seed(seed);
    match pid {
        "C01" => c01(&mut r, scale),
        "C02" => c02(&mut r, scale),
        "C03" => c03(&mut r, scale),
        "C04" => url::c04(&mut r, seed, scale),
        "C05" => url::c05(&mut r, seed, scale),
        _ => panic!("unknown property"),
    }
    println!("STAT cases {}", r.n);
    if r.fails > 0 {
        std::process::exit(3);
    }
}

fn view(q: &Quota<String>) -> Vec<String> {
    match q {
        Quota::One(x) => vec![x.clone()],
        Quota::Many(v) => v.clone(),
    }
}

fn c01(r: &mut Report, scale: usize) {
    let texts = ["", "a", "b", "a", "{}", "\u{e9}", "[1]"];
    // every starting quota of up to 5 elements, followed by up to 6 additions
    let mut starts: Vec<Quota<String>> = vec![Quota::default()];
    for t in texts {
        starts.push(Quota::One(t.to_string()));
    }
    let mut cur: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..(2 + scale.min(2)) {
        for v in &cur {
            starts.push(Quota::Many(v.clone()));
        }
        cur = cur.iter().flat_map(|v| texts.iter().map(move |t| { let mut v = v.clone(); v.push((*t).to_string()); v })).collect();
    }
    for (k, s) in starts.iter().enumerate() {
        let mut q = s.clone();
        let mut spec = view(s);
        for i in 0..(4 + scale) {
            let d = format!("{q:?}");
            r.check(q.len() == spec.len(), || format!("len() = {} for {d}", q.len()));
            r.check(q.is_empty() == spec.is_empty(), || format!("is_empty() = {} for {d}", q.is_empty()));
            r.check(q.is_one() == matches!(q, Quota::One(_)), || format!("is_one() = {} for {d}", q.is_one()));
            r.check(q.is_many() == matches!(q, Quota::Many(_)), || format!("is_many() = {} for {d}", q.is_many()));
            // serde: bare element or array, and back
            let j = serde_json::to_value(&q).unwrap();
            let want = match &q {
                Quota::One(x) => serde_json::Value::String(x.clone()),
                Quota::Many(v) => serde_json::Value::Array(v.iter().map(|x| serde_json::Value::String(x.clone())).collect()),
            };
            r.check(j == want, || format!("{d} serializes to {j}"));
            let back: Result<Quota<String>, _> = serde_json::from_value(j.clone());
            r.check(matches!(&back, Ok(b) if *b == q), || format!("{j} deserializes to {back:?}, expected {d}"));
            let item = texts[(i + k) % texts.len()].to_string();
            q.add(item.clone());
            spec.push(item.clone());
            r.check(view(&q) == spec && q.is_many(), || format!("{d}.add({item:?}) = {q:?}, expected elements {spec:?}"));
        }
    }
    r.check(matches!(Quota::<String>::default(), Quota::One(s) if s.is_empty()), || "default quota".into());
    for k in [Kind::<u32>::String("x".into()), Kind::String(String::new()), Kind::Object(7), Kind::default()] {
        let s = matches!(k, Kind::String(_));
        r.check(k.is_string() == s && k.is_object() == !s, || format!("{k:?}: is_string {} is_object {}", k.is_string(), k.is_object()));
        let j = serde_json::to_value(&k).unwrap();
        r.check(j.is_string() == s, || format!("{k:?} serializes to {j}"));
        let b: Result<Kind<u32>, _> = serde_json::from_value(j.clone());
        r.check(matches!(&b, Ok(b) if *b == k), || format!("{j} deserializes to {b:?}"));
    }
}

const SAFE: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789)(*&^%$#@!~";

fn positions(r: &mut Report, name: &str, alpha: &str, len: usize, samples: &[String]) {
    // every position takes every character of the alphabet
    let mut seen: Vec<HashSet<char>> = vec![HashSet::new(); len];
    for s in samples {
        for (i, c) in s.chars().enumerate() {
            if i < len {
                seen[i].insert(c);
            }
        }
    }
    for (i, s) in seen.iter().enumerate() {
        let missing: String = alpha.chars().filter(|c| !s.contains(c)).collect();
        r.check(missing.is_empty(), || format!("{name}: position {i} never took {missing:?} in {} samples", samples.len()));
    }
}

fn c02(r: &mut Report, scale: usize) {
    let n = 4000 * scale;
    let gens: [(&str, fn() -> String); 7] = [
        ("auth_code", gen::auth_code), ("issuer_state", gen::issuer_state), ("nonce", gen::nonce),
        ("notification_id", gen::notification_id), ("uri_token", gen::uri_token), ("token", gen::token),
        ("transaction_id", gen::transaction_id),
    ];
    let mut all = HashMap::new();
    for (name, g) in gens {
        let mut raw = vec![];
        for _ in 0..n {
            let Some(s) = r.guard(name, g) else { return };
            r.check(s.len() == 43 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_'), || format!("{name}() = {s:?} is not a 43 character base64url text"));
            let d = Base64UrlUnpadded::decode_vec(&s).ok().and_then(|v| String::from_utf8(v).ok());
            r.check(d.as_ref().is_some_and(|d| d.len() == 32 && d.chars().all(|c| SAFE.contains(c))), || format!("{name}() = {s:?} decodes to {d:?}"));
            if let Some(d) = d { raw.push(d); }
            if let Some(o) = all.insert(s.clone(), name) {
                r.check(false, || format!("{name}() repeated {s:?} of {o}"));
            }
        }
        positions(r, name, SAFE, 32, &raw);
    }
    let mut pins = vec![];
    for _ in 0..n {
        let Some(s) = r.guard("tx_code", gen::tx_code) else { return };
        r.check(s.len() == 6 && s.bytes().all(|b| b.is_ascii_digit()), || format!("tx_code() = {s:?}"));
        pins.push(s);
    }
    positions(r, "tx_code", "0123456789", 6, &pins);
    let distinct: HashSet<_> = pins.iter().collect();
    r.check(distinct.len() * 100 > pins.len().min(1_000_000) * 95, || format!("only {} distinct PINs in {}", distinct.len(), pins.len()));
}

const UNRES: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.~_";

fn c03(r: &mut Report, scale: usize) {
    let mut vs = vec![];
    let mut lens = HashSet::new();
    for _ in 0..(6000 * scale) {
        let Some(v) = r.guard("code_verifier", pkce::code_verifier) else { return };
        r.check((43..=128).contains(&v.len()) && v.chars().all(|c| UNRES.contains(c)), || format!("code_verifier() = {v:?}"));
        lens.insert(v.len());
        vs.push(v);
    }
    for l in 43..=128 {
        r.check(lens.contains(&l), || format!("no verifier of length {l} in {} samples", vs.len()));
    }
    positions(r, "code_verifier", UNRES, 43, &vs);
    let d: HashSet<_> = vs.iter().collect();
    r.check(d.len() == vs.len(), || "code_verifier repeated a value".into());
    let mut inputs: Vec<String> = vs.into_iter().take(300).collect();
    inputs.extend(["", "a", "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "\u{e9}\u{1f600}", "a b&c=d", "A", " a ", "a\n"].map(String::from));
    for v in &inputs {
        let want = Base64UrlUnpadded::encode_string(&Sha256::digest(v.as_bytes()));
        let Some(got) = r.guard("code_challenge", || pkce::code_challenge(v)) else { return };
        r.check(got == want, || format!("code_challenge({v:?}) = {got:?}, expected {want:?}"));
    }
    r.check(pkce::code_challenge("dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk") == "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM", || "RFC 7636 appendix B vector".into());
}
