use crate::overlay::{FnOv, Overlay};
use crate::rules;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::ops::Range;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Xform {
    pub ov: Overlay,
    pub types: String,
    pub external: BTreeSet<String>,
    pub seen: BTreeSet<String>,
    pub report: Vec<String>,
}

#[derive(Debug, Clone)]
struct Edit {
    at: Range<usize>,
    text: String,
    /// insertions at one offset: lower first
    prio: i32,
}

pub fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<String>()
}
fn normstr(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => t.to_string().split_whitespace().collect(),
        Err(_) => s.split_whitespace().collect(),
    }
}
fn rng<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

struct FileCx {
    text: String,
    edits: Vec<Edit>,
}

impl FileCx {
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.edits.push(Edit { at: at..at, text: text.into(), prio: 0 });
    }
    fn rep(&mut self, at: Range<usize>, text: impl Into<String>) {
        self.edits.push(Edit { at, text: text.into(), prio: 0 });
    }
    fn del(&mut self, at: Range<usize>) {
        self.rep(at, "");
    }
    /// text of the range with all edits applied
    fn render(&self, r: Range<usize>) -> String {
        let mut es: Vec<(usize, &Edit)> = self
            .edits
            .iter()
            .enumerate()
            .filter(|(_, e)| e.at.start >= r.start && e.at.end <= r.end)
            .collect();
        es.sort_by_key(|(i, e)| (e.at.start, if e.at.is_empty() { 0 } else { 1 }, e.prio, *i));
        let mut out = String::new();
        let mut pos = r.start;
        for (_, e) in es {
            if e.at.start < pos {
                continue; // inside a range that was replaced already
            }
            out.push_str(&self.text[pos..e.at.start]);
            out.push_str(&e.text);
            pos = e.at.end;
        }
        out.push_str(&self.text[pos..r.end]);
        out
    }
}

fn remap(segs: &[String]) -> Option<(usize, String)> {
    for (pre, to) in rules::REMAP {
        if segs.len() >= pre.len() && pre.iter().zip(segs).all(|(a, b)| a == b) {
            return Some((pre.len(), to.to_string()));
        }
    }
    None
}

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(a).contains("cfg(test)"))
}

impl Xform {
    pub fn new(ov: Overlay, types: String, external: BTreeSet<String>) -> Self {
        Self { ov, types, external, seen: BTreeSet::new(), report: Vec::new() }
    }

    pub fn module(&mut self, dir: &Path, file: &Path, path: &str, depth: usize) -> String {
        let text = fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                self.report.push(format!("LOST {path} parse-error {e}"));
                return String::new();
            }
        };
        let mut cx = FileCx { text, edits: Vec::new() };
        let mut out = String::new();
        out.push_str(&format!("//@@file src/{}\n", file.strip_prefix(dir).unwrap_or(file).display()));
        if depth > 0 {
            out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vprelude::*;\n broadcast use crate::vshim::axiom_question_mark;\n");
        } else {
            out.push_str("#[allow(unused_imports)] use crate::vprelude::*;\n broadcast use crate::vshim::axiom_question_mark;\n");
        }
        self.items(dir, file, &ast.items, path, depth, &mut cx, &mut out);
        out
    }

    fn items(&mut self, dir: &Path, file: &Path, items: &[syn::Item], path: &str, depth: usize, cx: &mut FileCx, out: &mut String) {
        for it in items {
            match it {
                syn::Item::Use(u) => {
                    let mut leaves = Vec::new();
                    flatten(&u.tree, &mut Vec::new(), &mut leaves);
                    for (p, alias) in leaves {
                        if rules::use_dropped(&p) {
                            continue;
                        }
                        let (t, last) = match remap(&p) {
                            Some((n, to)) => {
                                let mut t = to;
                                for s in &p[n..] {
                                    t.push_str("::");
                                    t.push_str(s);
                                }
                                (t, p.last().unwrap().clone())
                            }
                            None => (p.join("::"), p.last().unwrap().clone()),
                        };
                        let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
                        let vis = if last == "*" { vis } else { "pub " };
                        if last == "*" {
                            out.push_str(&format!("{vis}use {t};\n"));
                        } else {
                            let name = alias.clone().unwrap_or(last.clone());
                            // modules of the prelude are already in scope under these names
                            if t.ends_with(&format!("::{name}")) || t == name {
                                out.push_str(&format!("{vis}use {t};\n"));
                            } else {
                                out.push_str(&format!("{vis}use {t} as {name};\n"));
                            }
                        }
                    }
                }
                syn::Item::Mod(m) => {
                    if cfg_test(&m.attrs) {
                        continue;
                    }
                    let name = m.ident.to_string();
                    let sub = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
                    if name == "logging" || name == "pub_macros" {
                        continue;
                    }
                    match &m.content {
                        Some((_, its)) => {
                            out.push_str(&format!("pub mod {name} {{\nuse vstd::prelude::*; use crate::vprelude::*; broadcast use crate::vshim::axiom_question_mark;\n"));
                            self.items(dir, file, its, &sub, depth + 1, cx, out);
                            out.push_str("}\n");
                        }
                        None => {
                            let base = if file.file_name().unwrap() == "lib.rs" || file.file_name().unwrap() == "mod.rs" {
                                file.parent().unwrap().to_path_buf()
                            } else {
                                file.with_extension("")
                            };
                            let mut f = base.join(format!("{name}.rs"));
                            if !f.exists() {
                                f = base.join(&name).join("mod.rs");
                            }
                            out.push_str(&format!("pub mod {name} {{\n"));
                            let b = self.module(dir, &f, &sub, depth + 1);
                            out.push_str(&b);
                            out.push_str("}\n");
                        }
                    }
                }
                syn::Item::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "partition_types" {
                        self.partition_types(dir, m, path, out);
                    } else if name != "macro_rules" {
                        self.report.push(format!("DROPPED {path} macro {name}!"));
                    }
                }
                syn::Item::Fn(f) => {
                    if cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = join(path, &f.sig.ident.to_string());
                    self.function(&key, &f.attrs, Some(&f.vis), true, &f.sig, Some(&f.block), rng(f), cx, out);
                }
                syn::Item::Impl(i) => self.imp(i, path, cx, out),
                syn::Item::Trait(t) => {
                    let key0 = join(path, &t.ident.to_string());
                    // header up to the brace
                    let start = t.attrs.iter().map(|a| rng(a).end).max().unwrap_or(rng(t).start);
                    self.paths_in_item(it, cx);
                    let brace = t.brace_token.span.open().byte_range().start;
                    if let syn::Visibility::Inherited = t.vis {
                        out.push_str("pub ");
                    } else {
                        let r = rng(&t.vis);
                        cx.rep(r, "pub");
                    }
                    out.push_str(&cx.render(start..brace));
                    out.push_str("{\n");
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            let key = format!("{key0}::{}", f.sig.ident);
                            self.function(&key, &f.attrs, None, false, &f.sig, f.default.as_ref(), rng(f), cx, out);
                        }
                    }
                    out.push_str("}\n");
                }
                syn::Item::Struct(s) => {
                    self.derives(&s.attrs, &s.ident.to_string(), out);
                    for a in &s.attrs {
                        cx.del(rng(a));
                    }
                    pubvis(&s.vis, s.struct_token.span.byte_range().start, cx);
                    for f in &s.fields {
                        for a in &f.attrs {
                            cx.del(rng(a));
                        }
                        let at = f.ident.as_ref().map(|i| rng(i).start).unwrap_or(rng(&f.ty).start);
                        pubvis(&f.vis, at, cx);
                    }
                    self.paths_in_item(it, cx);
                    out.push_str(cx.render(rng(it)).trim_start());
                    out.push('\n');
                }
                syn::Item::Enum(e) => {
                    self.derives(&e.attrs, &e.ident.to_string(), out);
                    for a in &e.attrs {
                        cx.del(rng(a));
                    }
                    for v in &e.variants {
                        for a in &v.attrs {
                            cx.del(rng(a));
                        }
                    }
                    pubvis(&e.vis, e.enum_token.span.byte_range().start, cx);
                    self.paths_in_item(it, cx);
                    out.push_str(cx.render(rng(it)).trim_start());
                    out.push('\n');
                }
                syn::Item::Const(c) => {
                    for a in &c.attrs {
                        cx.del(rng(a));
                    }
                    pubvis(&c.vis, c.const_token.span.byte_range().start, cx);
                    self.paths_in_item(it, cx);
                    let key = join(path, &c.ident.to_string());
                    if let Some(o) = self.ov.fns.get(&key).cloned() {
                        // `const X: T = e;` with a contract: exec const
                        self.seen.insert(key.clone());
                        let t = cx.render(c.const_token.span.byte_range().end..rng(&c.ty).end);
                        let e = cx.render(rng(&c.expr));
                        out.push_str(&format!("//@@fn {key} tags={}\npub exec const{t}\n{}\n{{ {e} }}\n//@@endfn\n", o.tags.replace(' ', ","), o.spec));
                    } else {
                        out.push_str(cx.render(rng(it)).trim_start());
                        out.push('\n');
                    }
                }
                syn::Item::Type(t) => {
                    if norm(&t.ty).contains("dyn") {
                        continue;
                    }
                    for a in &t.attrs {
                        cx.del(rng(a));
                    }
                    self.paths_in_item(it, cx);
                    out.push_str(&cx.render(rng(it)));
                    out.push('\n');
                }
                _ => self.report.push(format!("DROPPED {path} item")),
            }
        }
    }

    fn derives(&mut self, attrs: &[syn::Attribute], name: &str, out: &mut String) {
        let mut d = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    d.insert(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
        if d.contains("Debug") {
            out.push_str(&format!(
                "impl core::fmt::Debug for {name} {{ #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}\n"
            ));
        }
        if d.contains("PartialEq") {
            out.push_str(&format!(
                "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> (r: bool) {{ unimplemented!() }} }}\n"
            ));
        }
        if d.contains("Copy") {
            out.push_str("#[derive(Clone, Copy)]\n");
        } else if d.contains("Clone") {
            out.push_str(&format!(
                "impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            ));
        }
    }

    fn paths_in_item(&mut self, it: &syn::Item, cx: &mut FileCx) {
        let mut v = PathVisit { cx };
        v.visit_item(it);
    }

    fn imp(&mut self, i: &syn::ItemImpl, path: &str, cx: &mut FileCx, out: &mut String) {
        if cfg_test(&i.attrs) {
            return;
        }
        let ty = norm(&i.self_ty);
        let (prefix, tr) = match &i.trait_ {
            Some((_, p, _)) => {
                let t = norm(p);
                if rules::impl_dropped(&t) {
                    return;
                }
                (join(path, &format!("<{t}for{ty}>")), Some(t))
            }
            None => (join(path, ty.split('<').next().unwrap()), None),
        };
        let brace = i.brace_token.span.open().byte_range().start;
        let start = i.impl_token.span.byte_range().start;
        {
            let mut v = PathVisit { cx };
            v.visit_generics(&i.generics);
            if let Some((_, p, _)) = &i.trait_ {
                v.visit_path(p);
            }
            v.visit_type(&i.self_ty);
        }
        let header = cx.render(start..brace);
        let mut inner = String::new();
        for ii in &i.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    if cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = format!("{prefix}::{}", f.sig.ident);
                    self.function(&key, &f.attrs, Some(&f.vis), tr.is_none(), &f.sig, Some(&f.block), rng(f), cx, &mut inner);
                }
                syn::ImplItem::Type(t) => {
                    let mut v = PathVisit { cx };
                    v.visit_impl_item_type(t);
                    inner.push_str(&cx.render(rng(t)));
                    inner.push('\n');
                }
                _ => {}
            }
        }
        if inner.trim().is_empty() && !i.items.is_empty() {
            return; // everything skipped
        }
        out.push_str(&header);
        out.push_str("{\n");
        out.push_str(&inner);
        out.push_str("}\n");
    }

    #[allow(clippy::too_many_arguments)]
    fn function(&mut self, key: &str, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, make_pub: bool, sig: &syn::Signature, block: Option<&syn::Block>, range: Range<usize>, cx: &mut FileCx, out: &mut String) {
        let ov = self.ov.fns.get(key).cloned();
        if ov.is_some() {
            self.seen.insert(key.to_string());
        }
        let has = ov.is_some();
        let ov = ov.unwrap_or_default();
        if ov.skip {
            self.report.push(format!("SKIPPED {key}"));
            return;
        }
        let external = ov.external || self.external.contains(key);
        for a in attrs {
            cx.del(rng(a));
        }
        if let Some(v) = vis {
            if make_pub {
                // the start of the signature
                let st = sig_start(sig);
                pubvis(v, st, cx);
            }
        }
        {
            let mut v = PathVisit { cx };
            v.visit_signature(sig);
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = rng(&**t);
            cx.edits.push(Edit { at: r.start..r.start, text: "(ret: ".into(), prio: -10 });
            cx.edits.push(Edit { at: r.end..r.end, text: ")".into(), prio: 10 });
        }
        if external {
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                if let (Some(m), None) = (&r.mutability, &r.reference) {
                    let mr = rng(m);
                    cx.del(mr);
                }
            }
        }
        let sig_end = block.map(|b| rng(b).start).unwrap_or(range.end);
        let mut lost = Vec::new();
        let mut nloops = 0;
        if let Some(b) = block {
            if !external {
                let mut lv = LoopCount { n: 0 };
                lv.visit_block(b);
                nloops = lv.n;
                let want = ov.loops.unwrap_or(0);
                let use_ov = want == nloops;
                if has && !use_ov {
                    lost.push(format!("loops expected {want} found {nloops}"));
                }
                {
                    let mut v = PathVisit { cx };
                    v.visit_block(b);
                }
                // R12: `mut self`
                if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                    if let (Some(m), None) = (&r.mutability, &r.reference) {
                        let mr = rng(m);
                        cx.del(mr);
                        let at = rng(b).start + 1;
                        cx.edits.push(Edit { at: at..at, text: "\nlet mut __self = self;\n".into(), prio: -30 });
                        let mut sv = SelfRename { cx };
                        sv.visit_block(b);
                    }
                }
                let mut bv = BodyVisit { cx, ov: &ov, next: 0, used_hints: BTreeSet::new(), used_closures: BTreeSet::new(), use_ov, auto_dec: false, nclosures: 0 };
                bv.visit_block(b);
                // statement hints
                let bc = bv;
                let (uh, uc, auto_dec) = (bc.used_hints.clone(), bc.used_closures.clone(), bc.auto_dec);
                let _ = auto_dec;
                let mut sv = StmtHints { cx, ov: &ov, used: uh };
                sv.top(b);
                let uh = sv.used;
                for (i, (a, _)) in ov.hints.iter().enumerate() {
                    if !uh.contains(&i) {
                        lost.push(format!("hint {a}"));
                    }
                }
                for (i, (a, _)) in ov.closures.iter().enumerate() {
                    if !uc.contains(&i) {
                        lost.push(format!("closure {a}"));
                    }
                }
                for (a, to) in &ov.rewrites {
                    let body = &cx.text[rng(b)];
                    let off = rng(b).start;
                    let n = body.matches(a.as_str()).count();
                    if n != 1 {
                        lost.push(format!("rewrite {a} ({n} matches)"));
                    } else {
                        let p = off + body.find(a.as_str()).unwrap();
                        let r = p..p + a.len();
                        cx.edits.retain(|e| !(e.at.start >= r.start && e.at.end <= r.end && !e.at.is_empty()));
                        cx.rep(r, to.clone());
                    }
                }
            }
        }
        out.push_str(&format!("//@@fn {key} tags={} contract={} external={}\n", ov.tags.replace(' ', ","), has as u8, external as u8));
        if external {
            out.push_str("#[verifier::external_body]\n");
        }
        for a in &ov.attrs {
            out.push_str(a);
            out.push('\n');
        }
        // every loop ends, unless the overlay gives no measure for a bare `loop`/`while`
        let measured = block.as_ref().map_or(0, |b| cx.render(rng(b)).matches(" decreases ").count());
        if nloops > measured && ov.attrs.iter().all(|a| !a.contains("no_decreases")) {
            out.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        let head = cx.render(range.start..sig_end);
        let head = head.trim_end().trim_end_matches(';').to_string();
        out.push_str(head.trim_start());
        out.push('\n');
        if !ov.spec.is_empty() {
            out.push_str(&ov.spec);
            out.push('\n');
        }
        match block {
            Some(_) if external => out.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                let body = cx.render(rng(b));
                out.push_str("{/*@@body*/");
                out.push_str(body.trim_start().strip_prefix('{').unwrap_or(&body));
                out.push('\n');
            }
            None => out.push_str(";\n"),
        }
        out.push_str("//@@endfn\n");
        for l in lost {
            self.report.push(format!("LOST {key} {l}"));
        }
        if !has {
            self.report.push(format!("NOCONTRACT {key}"));
        }
        if external {
            self.report.push(format!("EXTERNAL {key}"));
        }
    }

    /// Expands partition_types! { .. } with the transcriber found in macros.rs.
    fn partition_types(&mut self, dir: &Path, m: &syn::ItemMacro, path: &str, out: &mut String) {
        let entries = split_entries(m.mac.tokens.clone());
        // (name, guid literal, os tokens)
        let mut list = Vec::new();
        for e in &entries {
            list.push((e[0].to_string(), e[1].to_string().trim_matches('"').to_string(), e[2].to_string()));
        }
        out.push_str("//@@fn partition_types::constants tags= contract=0 external=0\n");
        for (n, g, os) in &list {
            let f: Vec<&str> = g.split('-').collect();
            if f.len() != 5 || g.len() != 36 {
                self.report.push(format!("LOST {path} partition type {n}"));
                continue;
            }
            let tail = format!("{}{}", f[3], f[4]);
            let d4: Vec<String> = (0..8).map(|i| format!("0x{}", &tail[2 * i..2 * i + 2])).collect();
            out.push_str(&format!(
                "#[verifier::opaque]\npub open spec fn k_{n}() -> Type {{ Type {{ guid: Uuid {{ d1: 0x{0}u32, d2: 0x{1}u16, d3: 0x{2}u16, d4: [{3}] }}, os: {os} }} }}\npub exec const {n}: Type ensures {n} == k_{n}() {{ proof {{ reveal(k_{n}); }} Type {{ guid: Uuid {{ d1: 0x{0}u32, d2: 0x{1}u16, d3: 0x{2}u16, d4: [{3}] }}, os: {os} }} }}\n",
                f[0], f[1], f[2], d4.join(", ")
            ));
        }
        out.push_str("//@@endfn\n");
        let outside = self.external.clone();
        let ext = |k: &str| if outside.contains(k) { "#[verifier::external_body] " } else { "" };
        // spec-level view of the same list
        out.push_str("/// the operating system published for a type GUID\n#[verifier::opaque]\npub open spec fn spec_os(g: Uuid) -> OperatingSystem {\n");
        for (n, _, _) in &list {
            out.push_str(&format!("if g == k_{n}().guid {{ k_{n}().os }} else "));
        }
        out.push_str("{ OperatingSystem::None }\n}\n");
        out.push_str("/// the type published under a name\n#[verifier::opaque]\npub open spec fn spec_named(u: Seq<char>) -> Option<Type> {\n");
        for (n, _, _) in &list {
            out.push_str(&format!("if u == \"{n}\"@ {{ Some(k_{n}()) }} else "));
        }
        out.push_str("{ None }\n}\n");
        out.push_str("//@@fn partition_types::table tags=C15 contract=1 external=0\n");
        for (n, g, _) in &list {
            out.push_str(&format!(
                "{0}pub proof fn lemma_text_{n}()\n ensures \"{n}\"@.len() != 36, \"{g}\"@.len() == 36, crate::vtypes::hyph(\"{g}\"@), crate::vtypes::hyph_is(\"{g}\"@, k_{n}().guid),\n{{ reveal_strlit(\"{n}\"); reveal_strlit(\"{g}\"); reveal(k_{n}); reveal(crate::vtypes::hyph); reveal(crate::vtypes::hyph_is); }}\n",
                ext("partition_types::table")
            ));
        }
        out.push_str("//@@endfn\npub proof fn lemma_texts()\n ensures\n");
        for (n, g, _) in &list {
            out.push_str(&format!("\"{n}\"@.len() != 36, \"{g}\"@.len() == 36, crate::vtypes::hyph(\"{g}\"@), crate::vtypes::hyph_is(\"{g}\"@, k_{n}().guid),\n"));
        }
        out.push_str("{\n");
        for (n, _, _) in &list {
            out.push_str(&format!("lemma_text_{n}(); "));
        }
        out.push_str("}\n");
        out.push_str("pub proof fn lemma_guid_fields()\n ensures\n");
        for (n, g, _) in &list {
            let f: Vec<&str> = g.split('-').collect();
            if f.len() == 5 && g.len() == 36 {
                out.push_str(&format!("k_{n}().guid.d1 == 0x{}u32, k_{n}().guid.d2 == 0x{}u16, k_{n}().guid.d3 == 0x{}u16, k_{n}().guid.d4@[0] == 0x{}u8, k_{n}().guid.d4@[2] == 0x{}u8, k_{n}().guid.d4@[7] == 0x{}u8,\n", f[0], f[1], f[2], &f[3][..2], &f[4][..2], &f[4][f[4].len() - 2..]));
            }
        }
        out.push_str("{\n");
        for (n, _, _) in &list {
            out.push_str(&format!("reveal(k_{n}); "));
        }
        out.push_str("}\n");
        out.push_str("/// no two entries have the same GUID\n//@@fn partition_types::distinct tags=C15 contract=1 external=0\n");
        out.push_str(ext("partition_types::distinct"));
        out.push_str("pub proof fn lemma_guids_distinct()\n ensures\n");
        for (n, _, _) in &list {
            out.push_str(&format!("spec_os(k_{n}().guid) == k_{n}().os,\n"));
        }
        out.push_str("{ reveal(spec_os); lemma_guid_fields(); }\n//@@endfn\n");
        out.push_str("pub proof fn lemma_not_named(u: Seq<char>)\n ensures\n u.len() == 36 ==> spec_named(u) is None,\n{ reveal(spec_named); lemma_texts(); }\n");
        // the published types, written down independently of the code
        out.push_str("//@@fn partition_types::published tags=C15 contract=1 external=0\n");
        for l in self.types.clone().lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() != 3 || outside.contains("partition_types::published") {
                continue;
            }
            if list.iter().any(|(n, _, _)| n == f[0]) {
                out.push_str(&format!(
                    "pub proof fn lemma_published_{0}()\n ensures crate::vtypes::hyph_is(\"{1}\"@, k_{0}().guid) && k_{0}().os == OperatingSystem::{2},\n{{ lemma_text_{0}(); reveal(k_{0}); reveal_strlit(\"{1}\"); reveal(crate::vtypes::hyph_is); }}\n",
                    f[0], f[1], f[2]
                ));
            } else {
                out.push_str(&format!("/// {0} is not published any more\npub proof fn lemma_published_{0}()\n ensures false,\n{{ }}\n", f[0]));
            }
        }
        out.push_str("//@@endfn\n");
        // the impls, transcribed from macros.rs
        let mac = fs::read_to_string(dir.join("macros.rs")).unwrap_or_default();
        for (pat, key) in [("impl From<Uuid> for Type", "<From<Uuid>forType>::from"), ("impl FromStr for Type", "<FromStrforType>::from_str")] {
            let Some(p) = mac.find(pat) else {
                self.report.push(format!("LOST {path}::{key} transcriber-not-found"));
                continue;
            };
            let rest = &mac[p..];
            let open = rest.find('{').unwrap();
            let mut d = 0;
            let mut end = 0;
            for (i, c) in rest.char_indices().skip(open) {
                if c == '{' {
                    d += 1
                }
                if c == '}' {
                    d -= 1;
                    if d == 0 {
                        end = i + 1;
                        break;
                    }
                }
            }
            let mut s = String::new();
            match rest[..end].parse::<TokenStream>() {
                Ok(toks) => transcribe(toks, &list, None, &mut s),
                Err(e) => {
                    self.report.push(format!("LOST {path}::{key} transcription {e}"));
                    continue;
                }
            }
            match syn::parse_str::<syn::File>(&s) {
                Ok(f) => {
                    let mut cx2 = FileCx { text: s.clone(), edits: Vec::new() };
                    match &f.items[0] {
                        syn::Item::Impl(i) if rng(i).start == 0 => self.imp(i, path, &mut cx2, out),
                        _ => self.report.push(format!("LOST {path}::{key} span-base")),
                    }
                }
                Err(e) => self.report.push(format!("LOST {path}::{key} transcription {e}")),
            }
        }
    }
}

/// the literals of a pattern "a" | "b" | ..
fn str_alternatives(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.token().to_string()]),
            _ => None,
        },
        syn::Pat::Paren(p) => str_alternatives(&p.pat),
        syn::Pat::Or(o) => {
            let mut v = Vec::new();
            for c in &o.cases {
                v.extend(str_alternatives(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

/// `#[doc] (A, "..", os),` ... -> [[A, lit, os tokens]]
fn split_entries(ts: TokenStream) -> Vec<Vec<TokenStream>> {
    let mut v = Vec::new();
    for t in ts {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
                for x in g.stream() {
                    match &x {
                        TokenTree::Punct(p) if p.as_char() == ',' && parts.len() < 3 => parts.push(TokenStream::new()),
                        TokenTree::Punct(p) if p.as_char() == ',' => {}
                        _ => parts.last_mut().unwrap().extend([x]),
                    }
                }
                if parts.len() == 3 {
                    v.push(parts);
                }
            }
        }
    }
    v
}

/// minimal macro_rules transcriber for the repetition over the entries
fn transcribe(ts: TokenStream, list: &[(String, String, String)], cur: Option<usize>, out: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match &toks[i + 1] {
                TokenTree::Group(g) => {
                    let inner = g.stream();
                    let txt = inner.to_string();
                    i += 2;
                    // the repetition operator
                    if let TokenTree::Punct(q) = &toks[i] {
                        if q.as_char() == '+' || q.as_char() == '*' {
                            i += 1;
                        }
                    }
                    if !txt.contains("docs") {
                        for k in 0..list.len() {
                            transcribe(inner.clone(), list, Some(k), out);
                            out.push('\n');
                        }
                    }
                    continue;
                }
                TokenTree::Ident(id) => {
                    let e = &list[cur.unwrap()];
                    let id = id.to_string();
                    match id.as_str() {
                        "upcase" => out.push_str(&e.0),
                        "guid" => out.push_str(&format!("\"{}\"", e.1)),
                        "os" => out.push_str(&e.2),
                        _ => out.push_str(&id),
                    }
                    out.push(' ');
                    i += 2;
                    continue;
                }
                _ => {}
            },
            // stringify!($upcase)
            TokenTree::Ident(id)
                if *id == "stringify"
                    && cur.is_some()
                    && matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '!')
                    && matches!(toks.get(i + 2), Some(TokenTree::Group(_))) =>
            {
                let mut t = String::new();
                if let TokenTree::Group(g) = &toks[i + 2] {
                    transcribe(g.stream(), list, cur, &mut t);
                }
                out.push_str(&format!("\"{}\" ", t.trim()));
                i += 3;
                continue;
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Brace => ("{\n", "}\n"),
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    _ => ("", ""),
                };
                out.push_str(a);
                transcribe(g.stream(), list, cur, out);
                out.push_str(b);
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == proc_macro2::Spacing::Alone {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

fn join(path: &str, n: &str) -> String {
    if path.is_empty() {
        n.to_string()
    } else {
        format!("{path}::{n}")
    }
}

fn sig_start(sig: &syn::Signature) -> usize {
    let mut s = sig.fn_token.span.byte_range().start;
    if let Some(c) = &sig.constness {
        s = s.min(c.span.byte_range().start);
    }
    if let Some(c) = &sig.unsafety {
        s = s.min(c.span.byte_range().start);
    }
    s
}

fn pubvis(v: &syn::Visibility, at: usize, cx: &mut FileCx) {
    match v {
        syn::Visibility::Public(_) => {}
        syn::Visibility::Inherited => cx.ins(at, "pub "),
        syn::Visibility::Restricted(r) => cx.rep(rng(r), "pub"),
    }
}

fn flatten(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let mut p = pre.clone();
            if n.ident != "self" {
                p.push(n.ident.to_string());
            }
            let alias = p.last().cloned();
            out.push((p, alias));
        }
        syn::UseTree::Rename(n) => {
            let mut p = pre.clone();
            if n.ident != "self" {
                p.push(n.ident.to_string());
            }
            out.push((p, Some(n.rename.to_string())));
        }
        syn::UseTree::Glob(_) => {
            let mut p = pre.clone();
            p.push("*".into());
            out.push((p, None));
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, pre, out);
            }
        }
    }
}

/// R3: path prefixes; R5: bare fn types
struct PathVisit<'a> {
    cx: &'a mut FileCx,
}
impl<'ast> Visit<'ast> for PathVisit<'_> {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some((n, to)) = remap(&segs) {
            // a single segment (e.g. a local called `uuid`) is no crate path
            if n < segs.len() || (n == 2 && segs[0] == "String") {
                let a = match &p.leading_colon {
                    Some(c) => rng(c).start,
                    None => rng(&p.segments[0].ident).start,
                };
                let b = rng(&p.segments[n - 1].ident).end;
                self.cx.rep(a..b, to);
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_type_bare_fn(&mut self, t: &'ast syn::TypeBareFn) {
        // fn(&mut D) -> io::Result<()>  ==>  crate::vfs::SyncFn<D>
        if t.inputs.len() == 1 {
            if let syn::Type::Reference(r) = &t.inputs[0].ty {
                let d = norm(&r.elem);
                self.cx.rep(rng(t), format!("crate::vfs::SyncFn<{d}>"));
                return;
            }
        }
        visit::visit_type_bare_fn(self, t);
    }
}

struct SelfRename<'a> {
    cx: &'a mut FileCx,
}
impl<'ast> Visit<'ast> for SelfRename<'_> {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident("self") {
            self.cx.rep(rng(p), "__self");
        }
    }
}

struct LoopCount {
    n: usize,
}
impl<'ast> Visit<'ast> for LoopCount {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) {
            self.n += 1;
        }
        visit::visit_expr(self, e);
    }
}
struct HasBreak {
    found: bool,
}
impl<'ast> Visit<'ast> for HasBreak {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Break(_) => self.found = true,
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// the `continue`s that belong to a loop with the given body
#[derive(Default)]
struct Continues {
    at: Vec<Range<usize>>,
}
impl<'ast> Visit<'ast> for Continues {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Continue(c) if c.label.is_none() => self.at.push(rng(c)),
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

struct BodyVisit<'a> {
    cx: &'a mut FileCx,
    ov: &'a FnOv,
    next: usize,
    used_hints: BTreeSet<usize>,
    used_closures: BTreeSet<usize>,
    use_ov: bool,
    auto_dec: bool,
    nclosures: usize,
}

impl BodyVisit<'_> {
    fn hint(&mut self, what: &str) -> String {
        let mut s = String::new();
        for (i, (a, t)) in self.ov.hints.iter().enumerate() {
            if a == what && self.use_ov {
                self.used_hints.insert(i);
                s.push_str(t);
                s.push('\n');
            }
        }
        s
    }
}

const SLICE_WRITERS: &[&str] = &["copy_from_slice", "clone_from_slice", "fill", "copy_within", "reverse", "swap"];

/// the x of `x[a..b]`
fn range_index(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(_)) => Some(&i.expr),
        syn::Expr::Paren(p) => range_index(&p.expr),
        _ => None,
    }
}

/// the x of `&x[..]`, `&*x` and `x.as_ref()`
fn text_of(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Paren(p) => text_of(&p.expr),
        syn::Expr::MethodCall(m) if (m.method == "as_ref" || m.method == "deref") && m.args.is_empty() => Some(&m.receiver),
        syn::Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
            syn::Expr::Index(i) => match &*i.index {
                syn::Expr::Range(g) if g.start.is_none() && g.end.is_none() => Some(&i.expr),
                _ => None,
            },
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some(&u.expr),
            _ => None,
        },
        _ => None,
    }
}

const LOOP_ATTR: &str = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n";

impl<'ast> Visit<'ast> for BodyVisit<'_> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::ForLoop(f) => {
                let k = self.next;
                self.next += 1;
                let mut base: &syn::Expr = &f.expr;
                let mut filters: Vec<&syn::ExprClosure> = Vec::new();
                let mut enumerate: Option<usize> = None; // number of filters applied after it (outside)
                loop {
                    match base {
                        syn::Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() && enumerate.is_none() => {
                            enumerate = Some(filters.len());
                            base = &m.receiver;
                        }
                        syn::Expr::MethodCall(m) if m.method == "filter" && m.args.len() == 1 && enumerate.map_or(true, |n| n == filters.len() || n == 0) => match &m.args[0] {
                            syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                                // filters outside of enumerate would see the pair: unsupported
                                if enumerate.is_none() && false {
                                    break;
                                }
                                filters.push(c);
                                base = &m.receiver;
                            }
                            _ => break,
                        },
                        syn::Expr::Paren(p) => base = &p.expr,
                        _ => break,
                    }
                }
                let enum_outer_filters = enumerate.unwrap_or(0);
                let iter_mut = match base {
                    syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() && filters.is_empty() => Some(&*m.receiver),
                    _ => None,
                };
                let mut hb = HasBreak { found: false };
                hb.visit_block(&f.body);
                let inv = if self.use_ov { self.ov.loop_inv.get(&k).cloned().unwrap_or_default() } else { String::new() };
                let ens = if self.use_ov { self.ov.loop_ens.get(&k).cloned().unwrap_or_default() } else { String::new() };
                let label = f.label.as_ref().map(|l| self.cx.text[rng(l)].to_string()).unwrap_or_default();
                let pat = self.cx.render(rng(&*f.pat));
                let before = self.hint(&format!("before loop {k}"));
                let after = self.hint(&format!("after loop {k}"));
                let lstart = self.hint(&format!("loop {k} start"));
                let mut lend = self.hint(&format!("loop {k} end"));
                // a hint for every way into the next iteration
                let lnext = self.hint(&format!("loop {k} next"));
                if !lnext.is_empty() {
                    lend.push_str(&lnext);
                    let mut cs = Continues::default();
                    cs.visit_block(&f.body);
                    for c in cs.at {
                        self.cx.ins(c.start, format!("{{\n{lnext}"));
                        self.cx.ins(c.end, " }");
                    }
                }
                let fr = rng(f);
                let brace = rng(&f.body);
                let mut head = String::new();
                if let Some(recv) = iter_mut {
                    let r = self.cx.render(rng(recv));
                    head.push_str("{\n");
                    head.push_str(&before);
                    head.push_str(&format!("let mut __vk{k}: usize = 0; let __vl{k} = {r}.len();\n{LOOP_ATTR}{label} loop\n invariant __vk{k} <= __vl{k}, __vl{k} == {r}.len(),\n{inv}\n"));
                    if !hb.found {
                        head.push_str(&format!(" ensures __vk{k} == __vl{k},\n{ens}\n"));
                    }
                    head.push_str(&format!(" decreases __vl{k} - __vk{k}\n{{ if __vk{k} >= __vl{k} {{ break; }}\n"));
                    head.push_str(&lstart);
                    if enumerate.is_some() {
                        head.push_str(&format!("let {pat} = (__vk{k}, &mut {r}[__vk{k}]); __vk{k} = __vk{k} + 1;\n"));
                    } else {
                        head.push_str(&format!("let {pat} = &mut {r}[__vk{k}]; __vk{k} = __vk{k} + 1;\n"));
                    }
                } else {
                    // nested closures / loops in the base expression
                    visit::visit_expr(self, base);
                    let b = self.cx.render(rng(base));
                    head.push_str("{\n");
                    head.push_str(&before);
                    head.push_str(&format!("match crate::vit::VIntoIter::viter({b}) {{ mut __vit{k} => {{\nlet mut __vn{k}: usize = 0; let ghost __vs{k} = __vit{k}.seq();\n{LOOP_ATTR}{label} loop\n invariant __vit{k}.seq() == __vs{k}, __vit{k}.idx() <= __vs{k}.len(), __vn{k} <= __vit{k}.idx(), __vs{k}.len() <= usize::MAX,\n{inv}\n"));
                    if !hb.found {
                        head.push_str(&format!(" ensures __vit{k}.idx() == __vs{k}.len(),\n{ens}\n"));
                    } else if !ens.is_empty() {
                        head.push_str(&format!(" ensures {ens}\n"));
                    }
                    head.push_str(&format!(" decreases __vs{k}.len() - __vit{k}.idx()\n{{ let __vx{k} = match __vit{k}.next() {{ Some(x) => x, None => break }};\n"));
                    head.push_str(&lstart);
                    // innermost filters first
                    let n = filters.len();
                    for (fi, c) in filters.iter().enumerate().rev() {
                        let outer = enumerate.is_some() && fi < enum_outer_filters;
                        if outer {
                            continue;
                        }
                        visit::visit_expr(self, &c.body);
                        let p = self.cx.render(rng(&c.inputs[0]));
                        let body = self.cx.render(rng(&*c.body));
                        head.push_str(&format!("{{ let {p} = &__vx{k}; if !({body}) {{ continue; }} }}\n"));
                    }
                    let _ = n;
                    if enumerate.is_some() {
                        head.push_str(&format!("let __vx{k} = (__vn{k}, __vx{k}); __vn{k} = __vn{k} + 1;\n"));
                        for (fi, c) in filters.iter().enumerate().rev() {
                            if fi < enum_outer_filters {
                                visit::visit_expr(self, &c.body);
                                let p = self.cx.render(rng(&c.inputs[0]));
                                let body = self.cx.render(rng(&*c.body));
                                head.push_str(&format!("{{ let {p} = &__vx{k}; if !({body}) {{ continue; }} }}\n"));
                            }
                        }
                    }
                    head.push_str(&format!("let {pat} = __vx{k};\n"));
                }
                self.cx.rep(fr.start..brace.start + 1, head);
                visit::visit_block(self, &f.body);
                let close = if iter_mut.is_some() { format!("\n{lend}}}\n{after}\n}}\n") } else { format!("\n{lend}}}\n{after}}} }}\n}}\n") };
                self.cx.rep(brace.end - 1..brace.end, close);
                return;
            }
            syn::Expr::While(w) => {
                let k = self.next;
                self.next += 1;
                let inv = if self.use_ov { self.ov.loop_inv.get(&k).cloned().unwrap_or_default() } else { String::new() };
                let lstart = self.hint(&format!("loop {k} start"));
                let lend = self.hint(&format!("loop {k} end"));
                let after = self.hint(&format!("after loop {k}"));
                let r = rng(&w.body);
                self.cx.ins(rng(w).start, LOOP_ATTR);
                if !inv.is_empty() {
                    self.cx.ins(r.start, format!("\n{inv}\n"));
                }
                self.cx.ins(r.start + 1, lstart);
                self.cx.ins(r.end - 1, lend);
                self.cx.ins(r.end, after);
            }
            syn::Expr::Loop(w) => {
                let k = self.next;
                self.next += 1;
                let inv = if self.use_ov { self.ov.loop_inv.get(&k).cloned().unwrap_or_default() } else { String::new() };
                let lstart = self.hint(&format!("loop {k} start"));
                let lend = self.hint(&format!("loop {k} end"));
                let after = self.hint(&format!("after loop {k}"));
                let r = rng(&w.body);
                self.cx.ins(rng(w).start, LOOP_ATTR);
                if !inv.is_empty() {
                    self.cx.ins(r.start, format!("\n{inv}\n"));
                }
                self.cx.ins(r.start + 1, lstart);
                self.cx.ins(r.end - 1, lend);
                self.cx.ins(r.end, after);
            }
            syn::Expr::Closure(c) => {
                let n = norm(c);
                let ord = format!("#{}", self.nclosures);
                self.nclosures += 1;
                let mut replaced = false;
                for (i, (a, t)) in self.ov.closures.iter().enumerate() {
                    if normstr(a) == n || *a == ord {
                        self.used_closures.insert(i);
                        // header up to the body is replaced, the body is kept
                        let b = rng(&*c.body);
                        let mut lets = String::new();
                        for (i, p) in c.inputs.iter().enumerate() {
                            let p = if let syn::Pat::Type(t) = p { &*t.pat } else { p };
                            if !matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
                                lets.push_str(&format!("let {} = __p{i}; ", &self.cx.text[rng(p)]));
                            }
                        }
                        self.cx.rep(rng(c).start..b.start, format!("{t} {{ {lets}"));
                        self.cx.ins(b.end, " }");
                        replaced = true;
                        break;
                    }
                }
                if !replaced {
                    // R11: closure parameters must be variables
                    let mut lets = String::new();
                    for (i, p) in c.inputs.iter().enumerate() {
                        match p {
                            syn::Pat::Ident(_) | syn::Pat::Type(_) => {}
                            syn::Pat::Wild(_) => self.cx.rep(rng(p), format!("__w{i}")),
                            _ => {
                                let t = self.cx.text[rng(p)].to_string();
                                self.cx.rep(rng(p), format!("__p{i}"));
                                lets.push_str(&format!("let {t} = __p{i}; "));
                            }
                        }
                    }
                    if !lets.is_empty() {
                        let b = rng(&*c.body);
                        self.cx.ins(b.start, format!("{{ {lets}"));
                        self.cx.ins(b.end, " }");
                    }
                }
            }
            // R9: comparison with a string literal
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && matches!(&*b.right, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_))) => {
                visit::visit_expr(self, &b.left);
                let l = self.cx.render(rng(&*b.left));
                let r = self.cx.render(rng(&*b.right));
                let neg = if matches!(b.op, syn::BinOp::Ne(_)) { "!" } else { "" };
                self.cx.rep(rng(b), format!("({neg}crate::vstr::str_eq(&{l}, {r}))"));
                return;
            }
            // R10: shims with the arity-generic result spelled out
            syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "to_le_bytes" || m.method == "to_be_bytes") => {
                let r = rng(&m.method);
                self.cx.rep(r, format!("v_{}", m.method));
            }
            syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "sort_unstable" || m.method == "sort") => {
                let r = rng(&m.method);
                self.cx.rep(r, "v_sort");
            }
            syn::Expr::MethodCall(m) if m.args.is_empty() && m.method == "try_into" => {
                let r = rng(&m.method);
                self.cx.rep(r, "v_try_into");
            }
            // R14: a range of a vector, array or slice that is written
            syn::Expr::MethodCall(m) if SLICE_WRITERS.contains(&m.method.to_string().as_str()) && range_index(&m.receiver).is_some() => {
                self.cx.ins(rng(range_index(&m.receiver).unwrap()).end, ".v_slice_mut()");
            }
            syn::Expr::Reference(r) if r.mutability.is_some() && range_index(&r.expr).is_some() => {
                self.cx.ins(rng(range_index(&r.expr).unwrap()).end, ".v_slice_mut()");
            }
            // R5: calls through and values of bare fn pointers
            syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("sync_all")) => {
                let r = rng(&*c.func);
                self.cx.rep(r, "sync_all.call");
            }
            syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1 && matches!(&c.args[0], syn::Expr::Path(p) if p.path.is_ident("file_sync_all")) => {
                let r = rng(&c.args[0]);
                self.cx.rep(r, "crate::vfs::SyncFn::file_sync_all()");
                return;
            }
            // R7: (e as f64).log2() as u32
            syn::Expr::Cast(ct) if norm(&ct.ty) == "u32" => {
                if let syn::Expr::MethodCall(m) = &*ct.expr {
                    if m.method == "log2" && m.args.is_empty() {
                        let mut r: &syn::Expr = &m.receiver;
                        while let syn::Expr::Paren(p) = r {
                            r = &p.expr;
                        }
                        if let syn::Expr::Cast(c2) = r {
                            if norm(&c2.ty) == "f64" {
                                let inner = self.cx.render(rng(&*c2.expr));
                                self.cx.rep(rng(ct), format!("crate::vshim::f64_log2_as_u32({inner})"));
                                return;
                            }
                        }
                    }
                }
            }
            syn::Expr::Macro(m) => self.mac(&m.mac, rng(m), false),
            // R8: an arm with string literals tests equality
            syn::Expr::Match(m) => {
                // a scrutinee compared with texts is a &str: `&x[..]`, `&*x` and `x.as_ref()` are the text of x
                if m.arms.iter().any(|a| str_alternatives(&a.pat).is_some()) {
                    if let Some(x) = text_of(&m.expr) {
                        let inner = self.cx.render(rng(x));
                        self.cx.rep(rng(&*m.expr), format!("({inner}).vtext()"));
                    }
                }
                for arm in &m.arms {
                    if let (Some(ls), None) = (str_alternatives(&arm.pat), &arm.guard) {
                        let c: Vec<String> = ls.iter().map(|l| format!("crate::vstr::text_is(__p, {l})")).collect();
                        self.cx.rep(rng(&arm.pat), format!("__p if {}", c.join(" || ")));
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.mac(&m.mac, rng(&m.mac), m.semi_token.is_some());
    }
}

impl BodyVisit<'_> {
    /// R8: panicking macros become calls whose precondition is that they are not reached
    fn mac(&mut self, m: &syn::Macro, r: Range<usize>, _semi: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = split_commas(m.tokens.clone());
        match name.as_str() {
            "assert" | "debug_assert" if !args.is_empty() => {
                self.cx.rep(r, format!("crate::vshim::rt_assert({})", self.toks(&args[0])));
            }
            "assert_eq" | "debug_assert_eq" if args.len() >= 2 => {
                self.cx.rep(r, format!("crate::vshim::rt_assert({} == {})", self.toks(&args[0]), self.toks(&args[1])));
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.cx.rep(r, "crate::vshim::rt_panic()");
            }
            // R13: vec![x; n]
            "vec" => {
                let mut i = 0;
                let all: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                while i < all.len() && !matches!(&all[i], TokenTree::Punct(p) if p.as_char() == ';') {
                    i += 1;
                }
                if i < all.len() {
                    self.cx.rep(r, format!("crate::vsl::vec_of({}, {})", self.toks(&all[..i]), self.toks(&all[i + 1..])));
                }
            }
            _ => {}
        }
    }
    fn toks(&self, t: &[TokenTree]) -> String {
        if t.is_empty() {
            return String::new();
        }
        let a = t[0].span().byte_range().start;
        let b = t[t.len() - 1].span().byte_range().end;
        // the paths inside are remapped textually
        let s = self.cx.text[a..b].to_string();
        match syn::parse_str::<syn::Expr>(&s) {
            Ok(_) => {
                let mut s2 = s;
                for (pre, to) in rules::REMAP {
                    if pre.len() >= 1 && pre[0] != "uuid" && pre[0] != "crc" {
                        s2 = s2.replace(&format!("{}::", pre.join("::")), &format!("{to}::"));
                    }
                }
                s2
            }
            Err(_) => s,
        }
    }
}

fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(vec![]),
            _ => v.last_mut().unwrap().push(t),
        }
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v
}

/// proof hints attached to statements
struct StmtHints<'a> {
    cx: &'a mut FileCx,
    ov: &'a FnOv,
    used: BTreeSet<usize>,
}
impl StmtHints<'_> {
    fn top(&mut self, b: &syn::Block) {
        let r = rng(b);
        for (i, (a, t)) in self.ov.hints.iter().enumerate() {
            match a.as_str() {
                "start" => {
                    self.used.insert(i);
                    self.cx.edits.push(Edit { at: r.start + 1..r.start + 1, text: format!("\n{t}\n"), prio: -20 });
                }
                "end" => {
                    self.used.insert(i);
                    match b.stmts.last() {
                        Some(syn::Stmt::Expr(e, None)) => {
                            let er = rng(e);
                            self.cx.edits.push(Edit { at: er.start..er.start, text: "let __vtail = ".into(), prio: -20 });
                            self.cx.edits.push(Edit { at: er.end..er.end, text: format!(";\n{t}\n__vtail"), prio: 20 });
                        }
                        _ => self.cx.edits.push(Edit { at: r.end - 1..r.end - 1, text: format!("\n{t}\n"), prio: 20 }),
                    }
                }
                _ => {}
            }
        }
        let mut counts = BTreeMap::new();
        self.walk(b, &mut counts);
    }
    fn walk(&mut self, b: &syn::Block, counts: &mut BTreeMap<usize, usize>) {
        struct W<'x, 'y> {
            s: &'x mut StmtHints<'y>,
            counts: &'x mut BTreeMap<usize, usize>,
        }
        impl<'ast> Visit<'ast> for W<'_, '_> {
            fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
                let n = norm(st);
                let r = rng(st);
                for (i, (a, t)) in self.s.ov.hints.iter().enumerate() {
                    if self.s.used.contains(&i) {
                        continue;
                    }
                    let (pos, pat) = if let Some(p) = a.strip_prefix("before stmt ") {
                        (0, p)
                    } else if let Some(p) = a.strip_prefix("after stmt ") {
                        (1, p)
                    } else {
                        continue;
                    };
                    // `#2 text`: the second statement that starts with the text
                    let (want, pat) = match pat.strip_prefix('#') {
                        Some(x) => {
                            let (n, p) = x.split_once(' ').unwrap();
                            (n.parse::<usize>().unwrap(), p)
                        }
                        None => (1, pat),
                    };
                    let pat: String = pat.split_whitespace().collect();
                    if n.starts_with(&pat) {
                        let c = self.counts.entry(i).or_insert(0);
                        *c += 1;
                        if *c == want {
                            self.s.used.insert(i);
                            let at = if pos == 0 { r.start } else { r.end };
                            self.s.cx.edits.push(Edit { at: at..at, text: format!("\n{t}\n"), prio: if pos == 0 { -5 } else { 5 } });
                        }
                    }
                }
                visit::visit_stmt(self, st);
            }
        }
        let mut w = W { s: self, counts };
        for s in &b.stmts {
            w.visit_stmt(s);
        }
    }
}
