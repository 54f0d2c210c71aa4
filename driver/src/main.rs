#[cfg(feature = "blocks")]
mod blocks;
#[cfg(feature = "blocks")]
mod builder;
mod cfg;
mod chars;
mod deser;
mod edits;
mod escape;
mod events;
mod expand;
mod gen;
mod normal;
mod parse;
mod pipeline;
mod probe;
mod real;
mod render;
mod replay;
mod rng;
mod types;
mod views;
mod watch;

use std::io::Write;

use serde_json::{json, Value};

use crate::gen::{Gen, Prof};

/// The documents each check concentrates on.
fn profile(name: &str) -> Prof {
    let d = Prof::default();
    match name {
        "C01" => Prof { garble: 50, unicode: 30, soup: 30, undef: 15, bad_kw: 8, big: 6, ..d },
        "C02" => Prof { attrs: 5, prolog: 60, stag: 40, xml: 25, garble: 8, ..d },
        "C03" => Prof { attrs: 6, stag: 60, etag: 30, text: 10, empty: 6, garble: 20, refs: 6, ..d },
        "C04" => Prof { text: 60, unicode: 30, no_trim: 50, comment: 15, refs: 15, garble: 4, ..d },
        "C05" => Prof { comment: 60, prolog: 50, garble: 15, ..d },
        "C06" => Prof { cdata: 25, rcdata: 25, ignore: 30, modes: [1, 3, 7], garble: 10, prolog: 35, ..d },
        "C07" => Prof { include: 35, modes: [2, 0, 8], garble: 12, comment: 12, undef: 8, ..d },
        "C08" => Prof { weird_kw: 85, cdata: 15, rcdata: 15, ignore: 15, include: 15, bad_kw: 10, modes: [3, 2, 5], stag: 20, items: 5, ..d },
        "C09" => Prof { prolog: 95, decl: 20, pi: 25, ignores: 40, garble: 15, ..d },
        "C10" => Prof { norm: 90, unicode: 60, stag: 50, etag: 30, attrs: 3, garble: 4, ..d },
        "C11" => Prof { refs: 60, lookup: 92, rcdata: 15, garble: 6, attrs: 3, ..d },
        "C12" => Prof { weird_kw: 95, lookup: 97, cdata: 10, rcdata: 10, ignore: 12, include: 15, modes: [4, 1, 5], ..d },
        "C13" => Prof { undef: 70, refs: 12, include: 12, rcdata: 8, lookup: 60, weird_kw: 50, ..d },
        "C14" => Prof { garble: 75, long_lines: 35, unicode: 30, undef: 20, bad_kw: 4, soup: 8, include: 10, ..d },
        _ => d,
    }
}

fn num(s: &str) -> u64 {
    s.parse().expect("expected a number")
}

/// Writes `n` records made by `f` to `out`, split into `shards` files (out.0, out.1, ...).
fn record(out: &str, n: usize, shards: usize, mut f: impl FnMut(u64) -> Value) {
    let w = watch::Watch::new(&format!("{}.cur", out));
    let mut files: Vec<_> = (0..shards)
        .map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{}", out, i)).unwrap()))
        .collect();
    for i in 0..n {
        w.begin(i);
        let rec = f(i as u64);
        let file = &mut files[i % shards];
        serde_json::to_writer(&mut *file, &rec).unwrap();
        file.write_all(b"\n").unwrap();
    }
    w.end();
}

fn case_seed(seed: u64, i: u64) -> u64 {
    seed.wrapping_mul(1_000_003).wrapping_add(i)
}

/// The domains whose cases are values: how a random one is made, how one is read off a behaviour printed by TLC, and
/// how one is executed.
struct Domain {
    input: fn(&str, u64) -> Value,
    behaviour: fn(&Value, &Value) -> Value,
    run: fn(&Value) -> Value,
}

fn parse_input(prof: &str, seed: u64) -> Value {
    let mut g = Gen::new(seed, profile(prof));
    let cfg = g.config();
    let src = g.document();
    let variant = g.r.below(1000);
    json!({"k": "parse", "src": chars::enc(&src), "cfg": cfg.to_json(), "variant": variant})
}

fn none(_: &Value, _: &Value) -> Value {
    panic!("no behaviours in this domain")
}

fn domain_of(name: &str) -> Option<Domain> {
    Some(match name {
        "parse" => Domain { input: parse_input, behaviour: parse::behaviour, run: parse::run_input },
        "edits" => Domain { input: |_, s| edits::input(s), behaviour: none, run: edits::run },
        "normalize" => Domain { input: |_, s| normal::input(s), behaviour: none, run: normal::run },
        "deser" => Domain { input: deser::input, behaviour: none, run: deser::run },
        #[cfg(feature = "blocks")]
        "blocks" => Domain { input: |_, s| blocks::input(s), behaviour: none, run: blocks::run },
        #[cfg(feature = "blocks")]
        "builder" => Domain { input: |_, s| builder::input(s), behaviour: none, run: builder::run },
        "views" => Domain { input: |_, s| views::input(s), behaviour: none, run: views::run },
        "pipeline" => Domain { input: pipeline::input, behaviour: none, run: pipeline::run },
        "reads" => Domain { input: |_, s| deser::reads_input(s), behaviour: deser::reads_behaviour, run: deser::run_reads },
        "lent" => Domain { input: |_, s| pipeline::lent_input(s), behaviour: pipeline::lent_behaviour, run: pipeline::run_lent },
        "escape" => Domain { input: |_, s| escape::input(s), behaviour: escape::behaviour, run: escape::run },
        "render" => Domain { input: |_, s| render::input(s), behaviour: render::behaviour, run: render::run },
        _ => return None,
    })
}

fn executed(mut input: Value, d: &Domain) -> Value {
    input["res"] = (d.run)(&input);
    input
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[1..] {
        // trace parse <profile> <seed> <n> <shards> <out>
        ["trace", domain, prof, seed, n, shards, out] => {
            let (seed, n, shards) = (num(seed), num(n) as usize, num(shards) as usize);
            record(out, n, shards, |i| match domain {
                "expand" => expand::trace(case_seed(seed, i)),
                x => {
                    let d = domain_of(x).expect("unknown domain");
                    executed((d.input)(prof, case_seed(seed, i)), &d)
                }
            });
        }
        // record <domain> <tlc output> <first> <count> <shards> <out>: executes some of the behaviours
        ["record", x, input, first, count, shards, out] => {
            let d = domain_of(x).expect("unknown domain");
            let mut it = replay::printed(input);
            let head = it.next().expect("TLC printed nothing");
            let cases: Vec<Value> = it.skip(num(first) as usize).take(num(count) as usize).collect();
            record(out, cases.len(), num(shards) as usize, |i| executed((d.behaviour)(&head, &cases[i as usize]), &d));
        }
        // source <domain> <profile> <seed> <index>: the input of one recorded case, without executing it
        ["source", domain, prof, seed, i] => {
            let s = case_seed(num(seed), num(i));
            let v = match domain {
                "expand" => {
                    let (kind, src, tab, _) = expand::input(s);
                    json!({"k": "expand", "kind": kind, "src": chars::enc(&src), "text": src, "tab": expand::enc_table(&tab)})
                }
                x => (domain_of(x).expect("unknown domain").input)(prof, s),
            };
            println!("{}", v);
        }
        // replay <kind> <tlc output> <out>
        ["replay", kind, input, out] => {
            let w = watch::Watch::new(&format!("{}.cur", out));
            let t = match kind {
                "parse" => replay::parser_session(input, replay::What::Outcome, &w),
                "entity" => replay::parser_session(input, replay::What::Entity, &w),
                "position" => replay::parser_session(input, replay::What::Position, &w),
                "expand" => expand::session(input, &w),
                "edits" => edits::session(input, &w),
                "normalize" => normal::session(input, &w),
                "deser" => deser::session(input, &w),
                "pipeline" => pipeline::session(input, &w),
                "lent" => pipeline::lent_session(input, &w),
                "reads" => deser::reads_session(input, &w),
                "views" => views::session(input, &w),
                "render" => render::session(input, &w),
                #[cfg(feature = "blocks")]
                "builder" => builder::session(input, &w),
                #[cfg(feature = "blocks")]
                "blocks" => blocks::session(input, &w),
                x => panic!("unknown kind {}", x),
            };
            w.end();
            std::fs::write(out, t.to_json().to_string()).unwrap();
        }
        // probe <tlc output> <family index> <n>: exit status 0 if the member conforms, 4 if not
        ["probe", input, k, n] => {
            let f = replay::printed(input).nth(num(k) as usize).expect("no such family");
            match probe::run(&f, num(n) as usize) {
                Ok(()) => {}
                Err(e) => {
                    println!("{}", e);
                    std::process::exit(4);
                }
            }
        }
        // one <replay file>: executes a recorded case again and prints what happens
        ["one", file] => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let v = if v["case"].is_object() { v["case"].clone() } else { v };
            let r = match v["k"].as_str().unwrap() {
                "expand" => expand::run(v["kind"].as_str().unwrap(), &chars::dec(&v["src"]), &expand::dec_table(&v["tab"]), 2),
                x => (domain_of(x).expect("unknown kind").run)(&v),
            };
            println!("{}", serde_json::to_string_pretty(&r).unwrap());
        }
        _ => panic!("bad arguments"),
    }
}
