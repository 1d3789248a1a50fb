//! Replay driver for vercre-dif-exch: evaluates constraints on the real crate against an independent oracle.
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use vercre_dif_exch::{Claims, Constraints, Field, Filter, FilterValue};

struct Doc(Result<Value, ()>);
impl Claims for Doc {
    fn to_json(&self) -> anyhow::Result<Value> {
        self.0.clone().map_err(|()| anyhow::anyhow!("cannot serialise"))
    }
}

/// oracle: Err = reported error, Ok = verdict
fn filter(f: &FilterValue, node: &Value) -> Result<bool, ()> {
    match f {
        FilterValue::Const(c) => Ok(match node {
            Value::String(s) => s == c,
            Value::Number(n) => &n.to_string() == c,
            Value::Bool(b) => (if *b { "true" } else { "false" }) == c,
            Value::Array(a) => a.iter().any(|e| matches!(e, Value::String(s) if s == c)),
            Value::Null | Value::Object(_) => false,
        }),
        FilterValue::Pattern(p) => {
            let re = regex::Regex::new(p).map_err(|_| ())?;
            Ok(match node {
                Value::String(s) => re.is_match(s),
                v => re.is_match(&serde_json::to_string(v).unwrap()),
            })
        }
        FilterValue::Format(f) => match (f.as_str(), node) {
            ("date", Value::String(s)) => Ok(chrono::NaiveDate::parse_from_str(s, "%Y-%m-%d").is_ok()),
            ("date-time", Value::String(s)) => Ok(chrono::DateTime::parse_from_rfc3339(s).is_ok()),
            ("date" | "date-time", _) => Ok(false),
            _ => Err(()),
        },
    }
}
fn field(f: &Field, doc: &Value) -> Result<bool, ()> {
    let mut found = false;
    for p in &f.path {
        let q = serde_json_path::JsonPath::parse(p).map_err(|_| ())?;
        let Some(node) = q.query(doc).all().first().copied() else { continue };
        found = true;
        match &f.filter {
            None => return Ok(true),
            Some(flt) => {
                if filter(&flt.value, node)? {
                    return Ok(true);
                }
            }
        }
    }
    Ok(f.optional == Some(true) && !found)
}
fn oracle(c: &Constraints, doc: &Doc) -> Result<bool, ()> {
    let Some(fs) = &c.fields else { return Ok(true) };
    let d = doc.0.clone()?;
    for f in fs {
        if !field(f, &d)? {
            return Ok(false);
        }
    }
    Ok(true)
}

struct Report {
    n: u64,
    fails: u64,
}
fn check(r: &mut Report, c: &Constraints, d: &Doc) {
    r.n += 1;
    let want = oracle(c, d);
    let got = catch_unwind(AssertUnwindSafe(|| c.satisfied(d).map_err(|_| ())));
    let ok = matches!(&got, Ok(g) if *g == want);
    if !ok {
        r.fails += 1;
        if r.fails <= 5 {
            println!(
                "FAIL constraints {} on document {}: expected {want:?}, got {}",
                serde_json::to_string(c).unwrap_or_default(),
                d.0.clone().unwrap_or_default(),
                got.map_or("a panic".to_string(), |g| format!("{g:?}"))
            );
        }
    }
}

fn scalars() -> Vec<Value> {
    let mut v = vec![json!(null), json!(true), json!(false), json!(0), json!(1), json!(-7), json!(1.5), json!(1e300), json!({}), json!({"a": "x"}), json!([])];
    for s in [
        "", "x", "X", "xy", " x", "x ", "true", "false", "null", "1", "0", "-7", "1.5", "\"x\"", "[]", "a b", "é", "EmployeeIDCredential", "VerifiableCredential",
        "line\nbreak", "2024-02-29", "2023-02-29", "2024-13-01", "2024-1-1", "20240229", "+12024-01-01", "2024-02-29T10:00:00Z", "2024-02-29T10:00:00+02:00", "2024-02-29T10:00:00",
        "2024-02-29 10:00:00Z", "2024-02-29t10:00:00z", "T10:00:00Z", "2024-02-29T25:00:00Z", " 2024-02-29", "2024-02-29 ", " 2024-02-29T10:00:00Z", "2024-02-29T10:00:00Z\n", "2024-02-29T10:00:00.123456Z", "2024-02-29T10:00:00-00:00", "2024-02-29T23:59:60Z", "0000-01-01", "-2024-01-01",
    ] {
        v.push(json!(s));
    }
    v
}
fn filters() -> Vec<FilterValue> {
    let mut v = Vec::new();
    for s in scalars() {
        v.push(FilterValue::Const(s.as_str().map_or_else(|| s.to_string(), str::to_string)));
    }
    for p in ["x", "^x$", "^x", "x$", "^$", "", ".*", "(", "[", "EmployeeID[a-zA-Z]+", "^EmployeeID", "\\d+", "^\\d+$", "true", "null", "^\\[", "\"x\"", "(?i)^X$", "^\"", "a.b", "^x|y$", "(?s)line.break"] {
        v.push(FilterValue::Pattern(p.to_string()));
    }
    for f in ["date", "date-time", "time", "", "Date", "email", "DATE-TIME"] {
        v.push(FilterValue::Format(f.to_string()));
    }
    v
}
fn mk(paths: &[&str], filter: Option<FilterValue>, optional: Option<bool>) -> Field {
    Field {
        path: paths.iter().map(ToString::to_string).collect(),
        filter: filter.map(|value| Filter { type_: "string".into(), value }),
        optional,
        ..Field::default()
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    fastrand::seed(args[2].parse().unwrap_or(1));
    let scale: u64 = args[3].parse().unwrap_or(1);
    let mut r = Report { n: 0, fails: 0 };
    let mut nodes = scalars();
    for a in ["x", "true", "1"] {
        nodes.push(json!([a]));
        nodes.push(json!(["y", a]));
        nodes.push(json!([a, "y", 1, null]));
        nodes.push(json!([[a]]));
        nodes.push(json!({ a: a }));
    }
    nodes.push(json!([1, true, null]));
    nodes.push(json!(["VerifiableCredential", "EmployeeIDCredential"]));
    let flt = filters();
    // every filter on every kind of claim
    for f in &flt {
        for n in &nodes {
            for ty in ["string", "array", "number"] {
                let mut fld = mk(&["$.a"], Some(f.clone()), None);
                if let Some(x) = fld.filter.as_mut() {
                    x.type_ = ty.into();
                }
                check(&mut r, &Constraints { fields: Some(vec![fld]), limit_disclosure: None }, &Doc(Ok(json!({ "a": n }))));
            }
        }
    }
    if args[1] == "D02" {
        finish(&r);
    }
    // combinations of fields, paths and optionality
    let docs = [
        json!({}),
        json!({"a": "x"}),
        json!({"a": "y", "b": "x"}),
        json!({"a": null, "b": ["x", "y"]}),
        json!({"a": [], "b": {"c": "x"}, "c": 1}),
        json!({"a": ["y", "x"], "c": true}),
        json!([]),
        json!([{"a": "x"}, {"a": "y"}]),
        json!("x"),
        json!({"b": "x", "c": "2024-02-29"}),
    ];
    let paths = ["$.a", "$.b", "$.c", "$.a[*]", "$.b[*]", "$.b.c", "$..c", "$..a", "$", "$.missing", "$[", "a", ""];
    let some = [
        FilterValue::Const("x".into()),
        FilterValue::Const("y".into()),
        FilterValue::Const("1".into()),
        FilterValue::Pattern("^x$".into()),
        FilterValue::Pattern("(".into()),
        FilterValue::Format("date".into()),
        FilterValue::Format("time".into()),
    ];
    let opts = [None, Some(false), Some(true)];
    for d in &docs {
        for p in &paths {
            for q in &paths {
                for o in opts {
                    let c = Constraints { fields: Some(vec![mk(&[p, q], None, o)]), limit_disclosure: None };
                    check(&mut r, &c, &Doc(Ok(d.clone())));
                    for f in &some {
                        let c = Constraints { fields: Some(vec![mk(&[p, q], Some(f.clone()), o)]), limit_disclosure: None };
                        check(&mut r, &c, &Doc(Ok(d.clone())));
                    }
                }
            }
        }
        for fields in [None, Some(vec![])] {
            check(&mut r, &Constraints { fields, limit_disclosure: Some("required".into()) }, &Doc(Ok(d.clone())));
        }
    }
    for fields in [None, Some(vec![]), Some(vec![mk(&["$.a"], None, Some(true))]), Some(vec![mk(&["$["], None, None)])] {
        check(&mut r, &Constraints { fields, limit_disclosure: None }, &Doc(Err(())));
    }
    let rnd = |n: usize| fastrand::usize(..n);
    for _ in 0..(6000 * scale) {
        let k = rnd(7);
        let fields = (0..k)
            .map(|_| {
                let np = rnd(8);
                let ps: Vec<&str> = (0..np).map(|_| paths[if rnd(10) > 0 { rnd(10) } else { rnd(paths.len()) }]).collect();
                let f = match rnd(4) {
                    0 => None,
                    1 => Some(flt[rnd(flt.len())].clone()),
                    _ => Some(some[rnd(if rnd(6) > 0 { 4 } else { 7 })].clone()),
                };
                let mut fld = mk(&ps, f, opts[rnd(3)]);
                if rnd(3) == 0 {
                    fld.id = Some("id".into());
                    fld.predicate = Some("required".into());
                    fld.purpose = Some("p".into());
                    fld.name = Some("n".into());
                    fld.intent_to_retain = Some(true);
                }
                fld
            })
            .collect();
        let d = if rnd(2) == 0 {
            docs[rnd(docs.len())].clone()
        } else {
            let mut m = serde_json::Map::new();
            for k in ["a", "b", "c"] {
                if rnd(3) > 0 {
                    m.insert(k.into(), nodes[rnd(nodes.len())].clone());
                }
            }
            Value::Object(m)
        };
        let limit = [None, Some("required".to_string()), Some("preferred".to_string())][rnd(3)].clone();
        check(&mut r, &Constraints { fields: Some(fields), limit_disclosure: limit }, &Doc(Ok(d)));
    }
    finish(&r);
}

fn finish(r: &Report) -> ! {
    println!("STAT cases {}", r.n);
    std::process::exit(if r.fails > 0 { 3 } else { 0 });
}
