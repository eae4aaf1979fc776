mod canon;
mod deco;
mod derive;
mod gen;
mod oracle;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use proc_macro2::TokenStream;
use gen::Focus;
use oracle::{expected, Outcome};

#[derive(PartialEq)]
pub enum Verdict { Skip, Agree { error: bool, n: usize }, Differ { kind: String, detail: String, want: String, got: String } }

pub fn is_error(t: &TokenStream) -> bool { let s = t.to_string().replace(' ', ""); s.starts_with("::core::compile_error!") || s.starts_with("compile_error!") || s.starts_with("::core::compile_error") }

pub fn expand(ta: bool, args: TokenStream, input: TokenStream) -> TokenStream { if ta { msrc_ta::auto_enum(args, input) } else { msrc::auto_enum(args, input) } }

pub fn judge(ta: bool, args: &str, input: &str) -> Verdict {
    let (Ok(a), Ok(i)) = (TokenStream::from_str(args), TokenStream::from_str(input)) else { return Verdict::Skip };
    let differ = |kind: &str, detail: String, want: String, got: String| Verdict::Differ { kind: kind.into(), detail, want, got };
    let got = match catch_unwind(AssertUnwindSafe(|| expand(ta, a.clone(), i.clone()))) {
        Ok(g) => g,
        Err(p) => return differ("panic", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(), "an expansion or a compile error".into(), "a panic".into()),
    };
    let again = if input.len() % 8 == 0 { expand(ta, a.clone(), i.clone()).to_string() } else { got.to_string() };
    if again != got.to_string() { return differ("determinism", "two expansions of the same input differ".into(), got.to_string(), again); }
    match (expected(ta, a, i), is_error(&got)) {
        (Outcome::Unspecified, _) => Verdict::Skip,
        (Outcome::Error(_), true) => Verdict::Agree { error: true, n: 0 },
        (Outcome::Error(r), false) => differ("accepted", format!("no compile error although: {}", r.join(", ")), "a compile error".into(), got.to_string()),
        (Outcome::Ok { tokens, .. }, true) => differ("rejected", "a compile error on a valid input".into(), tokens.to_string(), got.to_string()),
        (Outcome::Ok { tokens, scopes }, false) => match canon::compare(tokens.clone(), &scopes, got.clone()) {
            Ok(()) => Verdict::Agree { error: false, n: scopes.iter().map(|s| s.variants).sum() },
            Err((kind, detail)) => differ(kind, detail, tokens.to_string(), got.to_string()),
        },
    }
}

fn focus(s: &str) -> Focus { match s { "branches" => Focus::Branches, "loops" => Focus::Loops, "returns" => Focus::Returns, "tries" => Focus::Tries, "diverge" => Focus::Diverge, "nested" => Focus::Nested, "markers" => Focus::Markers, "plain" => Focus::Plain, "misuse" => Focus::Misuse, "enums" => Focus::Enums, "types" => Focus::Types, _ => panic!() } }

/// Two cases in three are decorated. Most of those the specification rejects are replaced.
fn make(s: u64, f: Focus) -> (String, String) {
    let mut last = (String::new(), String::new());
    for k in 0..6 {
        let mut g = gen::Gen::new(s.wrapping_mul(8) + k, f);
        let (a, i) = g.case();
        let i = if s % 3 == 0 { i } else { deco::decorate(&mut g.r, &i).unwrap_or(i) };
        last = (a, i);
        if s % 8 == 0 || f == Focus::Misuse && s % 8 < 5 { break; }
        if let (Ok(x), Ok(i)) = (TokenStream::from_str(&last.0), TokenStream::from_str(&last.1)) { if matches!(expected(s % 2 == 0, x, i), Outcome::Ok { .. }) { break; } }
    }
    last
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &**s) != Some("one") { if std::env::var_os("E3_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); } }
    match a.get(1).map(|s| &**s) {
        // one TA ARGS INPUT
        Some("one") => match judge(a[2] == "1", &a[3], &a[4]) {
            Verdict::Skip => { println!("SKIP"); }
            Verdict::Agree { error, .. } => { println!("AGREE error={error}"); }
            Verdict::Differ { kind, detail, want, got } => { println!("DIFFER {kind}: {detail}\nwant: {want}\ngot:  {got}"); std::process::exit(1); }
        },
        // raw TA ARGS INPUT: what the macro gives
        Some("raw") => println!("{}", expand(a[2] == "1", TokenStream::from_str(&a[3]).unwrap(), TokenStream::from_str(&a[4]).unwrap())),
        // digest FOCUS FROM COUNT
        Some("digest") => {
            let (from, count): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut h = 0xcbf29ce484222325u64;
            for s in from..from + count {
                let (args, input) = make(s, focus(&a[2]));
                let (Ok(x), Ok(i)) = (TokenStream::from_str(&args), TokenStream::from_str(&input)) else { continue };
                let o = catch_unwind(AssertUnwindSafe(|| expand(s % 2 == 0, x, i).to_string())).unwrap_or_default();
                for b in o.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
            }
            println!("{h:x}");
        }
        // why FOCUS FROM COUNT: how often each reason of rejection is the only one
        Some("why") => {
            let (from, count): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut m = std::collections::BTreeMap::new();
            for s in from..from + count {
                let (args, input) = make(s, focus(&a[2]));
                let (Ok(x), Ok(i)) = (TokenStream::from_str(&args), TokenStream::from_str(&input)) else { continue };
                let k = match expected(false, x, i) { Outcome::Error(mut r) => { r.sort(); r.dedup(); r.join("+") } Outcome::Ok { .. } => "ok".into(), _ => "unspecified".into() };
                *m.entry(k).or_insert(0) += 1;
            }
            for (k, n) in m { println!("{n}\t{k}"); }
        }
        Some("dump") => derive::dump(),
        Some("derive-one") => {
            let list: Vec<String> = a[2].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            match derive::judge(&list, ", ", &a[3]) {
                Verdict::Skip => println!("SKIP"),
                Verdict::Agree { .. } => println!("AGREE"),
                Verdict::Differ { kind, detail, want, got } => { println!("DIFFER {kind}: {detail}\nwant: {want}\ngot:  {got}"); std::process::exit(1); }
            }
        }
        // derive FORMS FROM COUNT LIMIT
        Some("derive") => {
            let (from, count): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let limit: u64 = a.get(5).map_or(20, |x| x.parse().unwrap());
            let (mut ran, mut bad) = (0u64, 0u64);
            let mut distinct = std::collections::HashSet::new();
            for s in from..from + count {
                let (list, sep, input) = derive::case(s, a[2] == "1");
                if let Verdict::Differ { kind, detail, want, got } = derive::judge(&list, &sep, &input) {
                    bad += 1;
                    if bad <= limit { println!("FAIL\t{kind}\t1\t{}\t{input}\t{detail}\t{want}\t{got}", list.join(", ")); }
                } else { ran += 1; if list.len() > 1 && distinct.insert(list.join(",")) && distinct.len() == 1 { println!("SAMPLE\t#[enum_derive({})] {input}", list.join(", ")); } }
            }
            println!("DONE\t{ran}\t0\t0\t{bad}\t{}", distinct.len());
        }
        // run FOCUS FROM COUNT
        Some("run") => {
            let f = focus(&a[2]);
            let (from, count): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let limit: u64 = a.get(5).map_or(20, |x| x.parse().unwrap());
            let (mut ran, mut err, mut skip, mut bad) = (0u64, 0u64, 0u64, 0u64);
            let mut distinct = std::collections::HashSet::new();
            for s in from..from + count {
                let (args, input) = make(s, f);
                for ta in [false, true] {
                    // the judge itself must not fall over; when it does the input is not judged, and the check says so
                    let v = catch_unwind(AssertUnwindSafe(|| judge(ta, &args, &input))).unwrap_or_else(|_| { println!("UNJUDGED\t{input}"); Verdict::Skip });
                    match v {
                        Verdict::Skip => skip += 1,
                        Verdict::Agree { error, n } => { ran += 1; if error { err += 1; } else if n >= 2 { if distinct.insert(input.clone()) && distinct.len() == 1 { println!("SAMPLE\t#[auto_enum({args})] {input}"); } } }
                        Verdict::Differ { kind, detail, want, got } => {
                            bad += 1;
                            if bad <= limit { println!("FAIL\t{kind}\t{}\t{args}\t{input}\t{detail}\t{want}\t{got}", ta as u8); }
                        }
                    }
                }
            }
            println!("DONE\t{ran}\t{err}\t{skip}\t{bad}\t{}", distinct.len());
        }
        _ => std::process::exit(2),
    }
}
