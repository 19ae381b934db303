//! Parser of the contract overlay files (*.vc).
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnOv {
    pub tags: String,
    pub attrs: Vec<String>,
    /// None: not declared
    pub loops: Option<usize>,
    pub external: bool,
    pub skip: bool,
    pub spec: String,
    pub loop_inv: BTreeMap<usize, String>,
    pub loop_ens: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub closures: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
}

#[derive(Debug, Clone, Default)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
}

pub fn load(dir: &Path) -> Overlay {
    let mut ov = Overlay::default();
    let mut files: Vec<_> = fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        parse(&fs::read_to_string(&f).unwrap(), &mut ov);
    }
    ov
}

fn parse(text: &str, ov: &mut Overlay) {
    let mut cur: Option<String> = None;
    let mut section: Option<String> = None;
    let mut buf = String::new();
    fn flush(ov: &mut Overlay, cur: &Option<String>, section: &mut Option<String>, buf: &mut String) {
        if let (Some(k), Some(s)) = (cur, section.take()) {
            let f = ov.fns.get_mut(k).unwrap();
            let t = buf.trim_end().to_string();
            let (head, rest) = match s.split_once(' ') {
                Some((a, b)) => (a.to_string(), b.trim().to_string()),
                None => (s.clone(), String::new()),
            };
            match head.as_str() {
                "spec" => f.spec = t,
                "loop" => {
                    f.loop_inv.insert(rest.parse().unwrap(), t);
                }
                "loop-ensures" => {
                    f.loop_ens.insert(rest.parse().unwrap(), t);
                }
                "hint" => f.hints.push((rest, t)),
                "closure" => f.closures.push((rest, t)),
                "rewrite" => f.rewrites.push((rest, t.trim().to_string())),
                _ => panic!("unknown section {s}"),
            }
        }
        buf.clear();
    }
    for line in text.lines() {
        if let Some(k) = line.strip_prefix("=== fn ") {
            flush(ov, &cur, &mut section, &mut buf);
            let k = k.trim().to_string();
            assert!(!ov.fns.contains_key(&k), "duplicate overlay {k}");
            ov.fns.insert(k.clone(), FnOv::default());
            cur = Some(k);
        } else if line.starts_with("===") {
            flush(ov, &cur, &mut section, &mut buf);
            cur = None;
        } else if let Some(s) = line.strip_prefix("--- ") {
            flush(ov, &cur, &mut section, &mut buf);
            section = Some(s.trim().to_string());
        } else if section.is_some() {
            buf.push_str(line);
            buf.push('\n');
        } else if let Some(k) = &cur {
            let f = ov.fns.get_mut(k).unwrap();
            let l = line.trim();
            if let Some(t) = l.strip_prefix("tags:") {
                f.tags = t.trim().to_string();
            } else if let Some(t) = l.strip_prefix("attr:") {
                f.attrs.push(t.trim().to_string());
            } else if let Some(t) = l.strip_prefix("loops:") {
                f.loops = Some(t.trim().parse().unwrap());
            } else if l == "external" {
                f.external = true;
            } else if l == "skip" {
                f.skip = true;
            } else if !l.is_empty() && !l.starts_with('#') {
                panic!("overlay {k}: unexpected line {l}");
            }
        }
    }
    flush(ov, &cur, &mut section, &mut buf);
}
