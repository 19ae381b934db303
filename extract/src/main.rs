//! vextract: copies the functions of /repo/src into one Verus file.
//!
//! usage: vextract <repo/src> <contracts dir> <out.rs> [--external KEY]...
//!
//! The text of every function body is the text of the repository; only the
//! edits listed in DESIGN.md ("What the extraction changes") are applied.
//! Contracts come from the *.vc files of the contracts directory and are
//! attached to functions by path.  Everything that could not be attached is
//! reported on stdout as `LOST <fn key> <what>`.

mod overlay;
mod rules;
mod xform;

use std::collections::BTreeSet;
use std::fs;
use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let src = Path::new(&args[0]);
    let contracts = Path::new(&args[1]);
    let out = &args[2];
    let mut external = BTreeSet::new();
    let mut i = 3;
    while i < args.len() {
        if args[i] == "--external" {
            external.insert(args[i + 1].clone());
            i += 2;
        } else {
            panic!("unknown argument {}", args[i]);
        }
    }
    let ov = overlay::load(contracts);
    let mut x = xform::Xform::new(ov, fs::read_to_string(contracts.join("types.table")).unwrap_or_default(), external);
    let body = x.module(src, &src.join("lib.rs"), "", 0);

    let mut text = String::new();
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_macros, unused_must_use, unexpected_cfgs, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_assignments, unused_unsafe)]\n");
    text.push_str("use vstd::prelude::*;\n");
    let logging = src.join("logging.rs");
    if logging.exists() {
        text.push_str("//@@file logging.rs (verbatim)\n");
        text.push_str(&fs::read_to_string(logging).unwrap());
    }
    text.push_str("\nverus! {\n");
    let mut shims: Vec<_> = fs::read_dir(contracts)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "rs"))
        .collect();
    shims.sort();
    for p in shims {
        text.push_str(&format!("//@@file contracts/{}\n", p.file_name().unwrap().to_string_lossy()));
        text.push_str(&fs::read_to_string(&p).unwrap());
        text.push('\n');
    }
    text.push_str("//@@file extracted\n");
    text.push_str(&body);
    text.push_str("\nfn main() {}\n} // verus!\n");
    fs::write(out, text).unwrap();

    for l in &x.report {
        println!("{l}");
    }
    for k in x.ov.fns.keys() {
        if !x.seen.contains(k) {
            println!("LOST {k} function-not-found");
        }
    }
}
