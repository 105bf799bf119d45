//! Contract overlay: text blocks keyed by item, read from the .vc files.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub file: String,
    pub contract: String,
    pub attrs: Vec<String>,
    pub trusted: Option<String>,
    pub skip: Option<String>,
    pub loops: BTreeMap<usize, String>,
    /// place -> proof text
    pub hints: Vec<(String, String)>,
    pub ret: Option<String>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    /// key: module::item
    pub fns: BTreeMap<String, FnSpec>,
    /// raw text placed at the top of a module
    pub prelude: BTreeMap<String, String>,
    /// text placed inside of a trait or an impl
    pub inside: BTreeMap<String, String>,
    /// const/static ensures
    pub consts: BTreeMap<String, String>,
    /// items left out of the extraction
    pub drops: BTreeMap<String, String>,
    /// traits whose methods are extracted as inherent methods of each implementing type
    pub flatten: Vec<String>,
    /// modules the contracts speak about
    pub modules: Vec<String>,
}

pub fn load(dir: &Path) -> Overlay {
    let mut ov = Overlay::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        if f.extension().map(|e| e == "vc").unwrap_or(false) {
            load_file(&mut ov, &f);
        }
    }
    ov
}

fn load_file(ov: &mut Overlay, path: &Path) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut module = String::new();
    let mut cur: Option<(String, String)> = None; // (directive, fn key)
    let mut body = String::new();
    let mut fnkey = String::new();
    let fname = path.file_name().unwrap().to_string_lossy().to_string();

    let mut flush = |ov: &mut Overlay, cur: &Option<(String, String)>, body: &mut String, module: &str| {
        if let Some((dir, key)) = cur {
            let t = body.trim_end().to_string();
            let mut it = dir.splitn(2, ' ');
            let word = it.next().unwrap();
            let rest = it.next().unwrap_or("").trim().to_string();
            match word {
                "prelude" => { ov.prelude.entry(module.to_string()).or_default().push_str(&(t + "\n")); }
                "inside" => { ov.inside.insert(format!("{}::{}", module, rest), t); }
                "const" => { ov.consts.insert(format!("{}::{}", module, rest), t); }
                "drop" => { ov.drops.insert(format!("{}::{}", module, rest), t.trim().to_string()); }
                "flatten" => { ov.flatten.push(format!("{}::{}", module, rest)); }
                "fn" => {
                    let e = ov.fns.entry(key.clone()).or_default();
                    e.file = fname.clone();
                    e.contract = t;
                }
                "trusted" => { ov.fns.get_mut(key).expect(key).trusted = Some(t.trim().to_string()); }
                "skip" => { ov.fns.get_mut(key).expect(key).skip = Some(t.trim().to_string()); }
                "attr" => { ov.fns.get_mut(key).expect(key).attrs.push(rest); }
                "loop" => { ov.fns.get_mut(key).expect(key).loops.insert(rest.parse().unwrap(), t); }
                "at" => { ov.fns.get_mut(key).expect(key).hints.push((rest, t)); }
                _ => panic!("{}: unknown directive {}", fname, dir),
            }
        }
        body.clear();
    };

    for line in text.lines() {
        if let Some(d) = line.strip_prefix("//@ ") {
            flush(ov, &cur, &mut body, &module);
            let d = d.trim();
            if let Some(m) = d.strip_prefix("module ") {
                module = m.trim().to_string();
                ov.modules.push(module.clone());
                cur = None;
                continue;
            }
            if let Some(f) = d.strip_prefix("fn ") {
                fnkey = format!("{}::{}", module, f.trim());
                ov.fns.entry(fnkey.clone()).or_default().file = fname.clone();
            }
            cur = Some((d.to_string(), fnkey.clone()));
        } else if cur.is_some() {
            body.push_str(line);
            body.push('\n');
        }
    }
    flush(ov, &cur, &mut body, &module);
}
