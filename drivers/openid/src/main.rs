//! Replay driver for vercre-openid: the real crate against independent oracles.
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use vercre_openid::issuer::{
    Claim, ClaimDefinition, CredentialAuthorization, CredentialConfiguration, CredentialDefinition, Format, Issuer, ProfileIsoMdl,
    ProfileSdJwt, ProfileW3c,
};

type Claims = HashMap<String, Claim>;

struct Report {
    fails: usize,
    n: usize,
}
impl Report {
    fn check(&mut self, good: bool, what: impl FnOnce() -> String) {
        self.n += 1;
        if !good {
            self.fails += 1;
            if self.fails <= 5 {
                println!("FAIL {}", what());
            }
        }
    }
}

fn rnd(n: usize) -> usize {
    fastrand::usize(0..n)
}

fn claims(depth: usize, max: usize) -> Claims {
    let names = ["a", "b", "c", "given_name"];
    let mut m = Claims::new();
    for _ in 0..rnd(max + 1) {
        let c = if depth > 0 && rnd(3) == 0 {
            Claim::Set(claims(depth - 1, 3))
        } else {
            Claim::Entry(ClaimDefinition { mandatory: [None, None, Some(true), Some(false)][rnd(4)], ..ClaimDefinition::default() })
        };
        m.insert(names[rnd(names.len())].to_string(), c);
    }
    m
}

/// a request derived from the supported claims, with small deviations
fn derive(sup: &Claims) -> Claims {
    let mut out = Claims::new();
    for (k, v) in sup {
        if rnd(5) == 0 {
            continue;
        }
        out.insert(
            k.clone(),
            match v {
                Claim::Set(s) => match rnd(8) {
                    0 => Claim::Entry(ClaimDefinition::default()),
                    _ => Claim::Set(derive(s)),
                },
                Claim::Entry(_) => match rnd(10) {
                    0 => Claim::Set(claims(1, 2)),
                    _ => Claim::Entry(ClaimDefinition::default()),
                },
            },
        );
    }
    if rnd(6) == 0 {
        out.insert("zz".into(), Claim::default());
    }
    out
}

fn supported(req: &Claims, sup: &Claims) -> bool {
    req.iter().all(|(k, r)| match (r, sup.get(k)) {
        (_, None) => false,
        (Claim::Entry(_), Some(_)) => true,
        (Claim::Set(a), Some(Claim::Set(b))) => supported(a, b),
        (Claim::Set(_), Some(Claim::Entry(_))) => false,
    })
}
fn complete(req: &Claims, sup: &Claims) -> bool {
    sup.iter().all(|(k, s)| match (s, req.get(k)) {
        (Claim::Entry(d), r) => d.mandatory != Some(true) || r.is_some(),
        (Claim::Set(b), None) => complete(&Claims::new(), b),
        (Claim::Set(b), Some(Claim::Set(a))) => complete(a, b),
        (Claim::Set(_), Some(Claim::Entry(_))) => false,
    })
}

fn format(kind: usize, ty: &str, cl: Option<Claims>) -> Format {
    let types = match ty {
        "none" => None,
        "empty" => Some(vec![]),
        t => Some(t.split(',').map(ToString::to_string).collect()),
    };
    let w3c = ProfileW3c {
        credential_definition: CredentialDefinition {
            context: [None, Some(vec!["ctx".to_string()])][rnd(2)].clone(),
            type_: types,
            credential_subject: cl.clone(),
        },
    };
    match kind {
        0 => Format::JwtVcJson(w3c),
        1 => Format::LdpVc(w3c),
        2 => Format::JwtVcJsonLd(w3c),
        3 => Format::IsoMdl(ProfileIsoMdl { doctype: ty.into(), claims: cl }),
        _ => Format::VcSdJwt(ProfileSdJwt { vct: ty.into(), claims: cl }),
    }
}

fn o01(r: &mut Report, n: usize) {
    for _ in 0..n {
        let sup = if rnd(20) == 0 { None } else { Some(claims(3, 4)) };
        let req = match (&sup, rnd(4)) {
            (_, 0) => claims(3, 3),
            (Some(s), _) => derive(s),
            _ => claims(2, 3),
        };
        let cfg = CredentialConfiguration { format: format(rnd(5), "T", sup.clone()), ..CredentialConfiguration::default() };
        let want = sup.as_ref().map_or(true, |s| supported(&req, s) && complete(&req, s));
        let got = catch_unwind(AssertUnwindSafe(|| cfg.verify_claims(&req).is_ok()));
        r.check(matches!(got, Ok(g) if g == want), || {
            format!("claims {} for a configuration supporting {}: accepted {got:?}, should be {want}",
                    serde_json::to_string(&req).unwrap(), serde_json::to_string(&sup).unwrap())
        });
    }
}

fn o02(r: &mut Report, n: usize) {
    let tys = ["none", "empty", "VC", "VC,Degree", "Degree,VC", "VC,Degree,Degree", "", "other"];
    for _ in 0..n {
        let mut m = HashMap::new();
        let mut sig = HashMap::new();
        for i in 0..rnd(6) {
            let (k, t) = (rnd(5), tys[rnd(tys.len())]);
            let id = format!("cfg{i}");
            m.insert(id.clone(), CredentialConfiguration { format: format(k, t, Some(claims(1, 2))), ..CredentialConfiguration::default() });
            sig.insert(id, (k, t));
        }
        let (k, t) = (rnd(5), tys[rnd(tys.len())]);
        let f = format(k, t, if rnd(2) == 0 { None } else { Some(claims(1, 2)) });
        let iss = Issuer { credential_configurations_supported: m, ..Issuer::default() };
        let got = catch_unwind(AssertUnwindSafe(|| iss.credential_configuration_id(&f).cloned().ok()));
        let good = match &got {
            Ok(Some(id)) => sig.get(id) == Some(&(k, t)),
            Ok(None) => !sig.values().any(|x| *x == (k, t)),
            Err(_) => false,
        };
        r.check(good, || format!("format kind {k} type {t:?} among {sig:?}: found {got:?}"));
        // authorized credentials: by configuration id or by format, claims apart
        let mk = |id: Option<usize>, k: usize, t: &str| match id {
            Some(i) => CredentialAuthorization::ConfigurationId { credential_configuration_id: format!("cfg{i}"), claims: None },
            None => CredentialAuthorization::Format(format(k, t, Some(claims(1, 2)))),
        };
        let (i1, i2) = ([None, Some(rnd(3))][rnd(2)], [None, Some(rnd(3))][rnd(2)]);
        let ((k1, t1), (k2, t2)) = ((rnd(5), tys[rnd(tys.len())]), (rnd(5), tys[rnd(tys.len())]));
        let (t2, k2) = if rnd(2) == 0 { (t1, k1) } else { (t2, k2) };
        let want = match (i1, i2) {
            (Some(a), Some(b)) => a == b,
            (None, None) => (k1, t1) == (k2, t2),
            _ => false,
        };
        let got = mk(i1, k1, t1) == mk(i2, k2, t2);
        r.check(got == want, || format!("authorized credentials {i1:?}/{k1}/{t1} and {i2:?}/{k2}/{t2}: equal {got}"));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    fastrand::seed(a[2].parse().unwrap());
    let scale: usize = a[3].parse().unwrap();
    let mut r = Report { fails: 0, n: 0 };
    match a[1].as_str() {
        "O01" => o01(&mut r, 20000 * scale),
        "O02" => o02(&mut r, 10000 * scale),
        _ => {}
    }
    println!("STAT cases {}", r.n);
    std::process::exit(if r.fails > 0 { 3 } else { 0 });
}
