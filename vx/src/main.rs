//! Extracts /repo into a Verus crate, adding the contracts of the overlay.
mod lower;
mod macros;
mod consts;
mod overlay;
mod print;

use lower::{Ctx, Helper, Lower};
use overlay::Overlay;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Module {
    path: String,
    #[allow(dead_code)]
    file: PathBuf,
    items: Vec<Item>,
    children: Vec<Module>,
    macro_use: bool,
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
        || attrs.iter().any(|a| a.path().is_ident("test"))
}

fn load(file: &Path, path: &str, dir: &Path, macro_use: bool) -> Module {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("vx: {}: {}", file.display(), e); std::process::exit(3) });
    let ast = syn::parse_file(&text).unwrap_or_else(|e| { eprintln!("vx: {}: {}", file.display(), e); std::process::exit(3) });
    load_items(ast.items, file, path, dir, macro_use)
}

fn load_items(src: Vec<Item>, file: &Path, path: &str, dir: &Path, macro_use: bool) -> Module {
    let mut items = vec![];
    let mut children = vec![];
    for it in src {
        match it {
            Item::Mod(m) => {
                if cfg_test(&m.attrs) { continue; }
                let name = m.ident.to_string();
                let sub = if path.is_empty() { name.clone() } else { format!("{}::{}", path, name) };
                let mu = m.attrs.iter().any(|a| a.path().is_ident("macro_use"));
                match m.content {
                    Some((_, its)) => children.push(load_items(its, file, &sub, &dir.join(&name), mu)),
                    None => {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        children.push(load(&f, &sub, &dir.join(&name), mu));
                    }
                }
            }
            it => {
                let attrs = match &it {
                    Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Struct(x) => &x.attrs,
                    Item::Const(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Use(x) => &x.attrs,
                    _ => { items.push(it); continue; }
                };
                if cfg_test(attrs) { continue; }
                items.push(it);
            }
        }
    }
    macros::constants(&mut items);
    Module { path: path.to_string(), file: file.to_path_buf(), items, children, macro_use }
}

fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace("'a ", "").replace("'static ", "").replace(' ', "")
}

fn impl_key(i: &ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", norm(p), norm(&*i.self_ty)),
        None => {
            let s = norm(&*i.self_ty);
            match s.find('<') { Some(k) => s[..k].to_string(), None => s }
        }
    }
}

struct Out<'a> {
    ov: &'a Overlay,
    ctx: &'a Ctx,
    text: String,
    fns: Vec<Value>,
    dropped: Vec<Value>,
    used: BTreeSet<String>,
    roles: &'a BTreeMap<String, BTreeMap<String, String>>,
    /// functions whose bodies are left out: the verifier could not read them
    opaque: &'a BTreeSet<String>,
    helper_names: BTreeSet<String>,
    inlined: BTreeSet<String>,
    notes: Vec<String>,
    base_names: &'a BTreeMap<String, Vec<String>>,
}

fn strip_debug_bounds(g: &mut Generics) {
    let is_dbg = |b: &TypeParamBound| match b {
        TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident == "Debug").unwrap_or(false),
        _ => false,
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t.bounds.iter().filter(|b| !is_dbg(b)).cloned().collect();
        }
    }
}

fn names_in(block: &Block, sig: &Signature) -> Vec<String> {
    struct N(Vec<String>);
    impl VisitMut for N {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && !self.0.contains(&n) { self.0.push(n); }
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    let mut n = N(vec![]);
    let mut sig = sig.clone();
    n.visit_signature_mut(&mut sig);
    let mut b = block.clone();
    n.visit_block_mut(&mut b);
    n.0
}

/// the exit hint speaks of nothing but the parameters and the result
fn exit_anywhere(spec: &crate::overlay::FnSpec, block: &Block) -> bool {
    let h = match spec.hints.iter().find(|(p, _)| p == "exit") { Some((_, h)) => h, None => return false };
    let mut local = names_in(block, &parse_quote!(fn f()));
    for (_, t) in &spec.hints {
        for x in t.split("let ghost ").skip(1) {
            let x = x.trim_start().trim_start_matches("mut ").trim_start();
            local.push(x.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect());
        }
    }
    let word = |c: char| !(c.is_ascii_alphanumeric() || c == '_');
    !h.split(word).any(|w| local.iter().any(|l| l == w))
}

/// kinds of the loops of the source, in the order they are met
fn loop_kinds(block: &Block) -> Vec<&'static str> {
    struct N(Vec<&'static str>);
    impl VisitMut for N {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::While(_) => self.0.push("while"),
                Expr::ForLoop(_) => self.0.push("for"),
                Expr::Loop(_) => self.0.push("loop"),
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut n = N(vec![]);
    n.visit_block_mut(&mut block.clone());
    n.0
}

fn replace_word(text: &str, from: &str, to: &str) -> String {
    let b = text.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        if text[i..].starts_with(from) && (i == 0 || !isw(b[i - 1]) ) && (i + from.len() >= b.len() || !isw(b[i + from.len()]))
            && !(i > 0 && b[i - 1] == b'.') {
            out.push_str(to);
            i += from.len();
        } else {
            let ch = text[i..].chars().next().unwrap();
            out.push(ch);
            i += ch.len_utf8();
        }
    }
    out
}

impl<'a> Out<'a> {
    fn line(&self) -> usize { self.text.matches('\n').count() + 1 }

    fn raw(&mut self, ts: TokenStream) {
        let get = |_: &str, _: &str| String::new();
        let s = print::print(ts, &print::Anno { get: &get });
        self.text.push_str(&s);
        if !self.text.ends_with('\n') { self.text.push('\n'); }
    }

    /// emits one function
    fn func(&mut self, module: &str, owner: &str, sig: &Signature, block: Option<&Block>, public: bool) {
        let key = if owner.is_empty() { format!("{}::{}", module, sig.ident) } else { format!("{}::{}::{}", module, owner, sig.ident) };
        let spec = self.ov.fns.get(&key).cloned();
        self.used.insert(key.clone());
        if let Some(s) = &spec {
            if let Some(r) = &s.skip {
                self.dropped.push(json!({"item": key, "why": r}));
                return;
            }
        }
        let mut sig = sig.clone();
        strip_debug_bounds(&mut sig.generics);
        // AsRef<[u8]> parameters are taken as slices
        let mut asref = BTreeSet::new();
        let mut asref_ty = BTreeSet::new();
        {
            let mut w: Vec<(String, String)> = vec![];
            for p in &sig.generics.params {
                if let GenericParam::Type(t) = p { w.push((t.ident.to_string(), norm(&t.bounds))); }
            }
            if let Some(wc) = &sig.generics.where_clause {
                for p in &wc.predicates {
                    if let WherePredicate::Type(t) = p { w.push((norm(&t.bounded_ty), norm(&t.bounds))); }
                }
            }
            for (n, b) in w { if b == "AsRef<[u8]>" { asref_ty.insert(n); } }
            if !asref_ty.is_empty() {
                for i in sig.inputs.iter_mut() {
                    if let FnArg::Typed(t) = i {
                        if asref_ty.contains(&norm(&*t.ty)) {
                            asref.insert(norm(&*t.pat));
                            *t.ty = parse_quote!(&[u8]);
                        }
                    }
                }
                sig.generics = Generics::default();
            }
        }

        let mut lw = Lower::new(self.ctx, spec.as_ref());
        lw.asref = asref;
        let mut body = block.cloned();
        let names = match block { Some(b) => names_in(b, &sig), None => vec![] };
        let kinds = block.map(loop_kinds).unwrap_or_default();
        if let Some(b) = body.as_mut() {
            if lower::io_result(&sig.output) { lower::untry(b); }
            if !self.ctx.helpers.is_empty() { lower::mark_tail(b); }
            lw.exits = spec.as_ref().map_or(false, |s| exit_anywhere(s, b));
            if let ReturnType::Type(_, t) = &sig.output { lw.ret = Some((**t).clone()); }
            lw.visit_block_mut(b);
            let mut st: Vec<Stmt> = vec![];
            if let Some(s) = &spec {
                if s.hints.iter().any(|(p, _)| p == "entry") {
                    lw.placed.insert("entry".into());
                    st.push(parse_quote!(vx_hint!("entry");));
                }
                st.append(&mut b.stmts);
                if s.hints.iter().any(|(p, _)| p == "exit") {
                    lw.placed.insert("exit".into());
                    match st.pop() {
                        Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                            st.push(parse_quote!(let vx_ret = #e;));
                            st.push(parse_quote!(vx_hint!("exit");));
                            st.push(Stmt::Expr(parse_quote!(vx_ret), None));
                        }
                        Some(Stmt::Expr(e, None)) => {
                            st.push(Stmt::Expr(e, Some(Default::default())));
                            st.push(parse_quote!(vx_hint!("exit");));
                        }
                        Some(x) => { st.push(x); st.push(parse_quote!(vx_hint!("exit");)); }
                        None => st.push(parse_quote!(vx_hint!("exit");)),
                    }
                }
                b.stmts = st;
            }
        }
        let nloops = lw.loops;
        let inl: Vec<String> = lw.inlined.iter().cloned().collect();
        for i in &inl { self.inlined.insert(i.clone()); }

        let mut lost: Vec<String> = vec![];
        if let Some(s) = &spec {
            for (p, _) in &s.hints { if !lw.placed.contains(p) { lost.push(format!("hint {}", p)); } }
            for n in s.loops.keys() { if *n >= nloops { lost.push(format!("loop {}", n)); } }
            if s.loops.len() < nloops && s.trusted.is_none() { lost.push(format!("{} loops, {} annotated", nloops, s.loops.len())); }
        }

        // names of locals used by the annotations, mapped when a local was renamed
        let mut map: Vec<(String, String)> = vec![];
        if let Some(base) = self.base_names.get(&key) {
            let missing: Vec<&String> = base.iter().filter(|n| !names.contains(n)).collect();
            let fresh: Vec<&String> = names.iter().filter(|n| !base.contains(n)).collect();
            if !missing.is_empty() && missing.len() == fresh.len() {
                for (a, b) in missing.iter().zip(fresh.iter()) { map.push(((*a).clone(), (*b).clone())); }
            }
        }
        let roles = self.roles.get(&key).cloned().unwrap_or_default();
        let fix = |t: &str| -> String {
            let mut t = t.to_string();
            for (a, b) in &map { t = replace_word(&t, a, b); }
            for (a, b) in &roles { t = replace_word(&t, a, b); }
            t
        };

        let start = self.line();
        let spec2 = spec.clone();
        let get = move |kind: &str, arg: &str| -> String {
            let s = match &spec2 { Some(s) => s, None => return String::new() };
            match kind {
                "loop" => s.loops.get(&arg.parse::<usize>().unwrap()).cloned().unwrap_or_default(),
                _ => s.hints.iter().filter(|(p, _)| p == arg).map(|(_, t)| t.clone()).collect::<Vec<_>>().join("\n"),
            }
        };
        let get2 = |k: &str, a: &str| fix(&get(k, a));
        let an = print::Anno { get: &get2 };

        let contract = spec.as_ref().map(|s| s.contract.clone()).unwrap_or_default();
        let contract = fix(&contract);
        let mut head = String::new();
        let opaque = self.opaque.contains(&key);
        if let Some(s) = &spec {
            for a in &s.attrs { head.push_str(a); head.push('\n'); }
            if s.trusted.is_some() || opaque { head.push_str("#[verifier::external_body]\n"); }
        }
        let out = sig.output.clone();
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        let wc = s2.generics.where_clause.take();
        let vis = if public { quote!(pub) } else { quote!() };
        let mut t = print::print(quote!(#vis #s2), &an);
        while t.ends_with(' ') || t.ends_with('\n') { t.pop(); }
        head.push_str(&t);
        if let ReturnType::Type(_, ty) = &out {
            let tt = print::print(quote!(#ty), &an);
            head.push_str(&format!(" -> (r: {})", tt.trim()));
        }
        if let Some(w) = wc { head.push('\n'); head.push_str(&print::print(quote!(#w), &an)); }
        self.text.push_str(&format!("// @fn {}\n", key));
        self.text.push_str(&head);
        self.text.push('\n');
        if !contract.trim().is_empty() {
            self.text.push_str(&contract);
            self.text.push('\n');
        }
        match body {
            Some(_) if opaque => self.text.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                let s = print::print(quote!(#b), &an);
                self.text.push_str(&s);
            }
            None => self.text.push_str(";\n"),
        }
        if !self.text.ends_with('\n') { self.text.push('\n'); }
        self.text.push_str(&format!("// @end {}\n\n", key));
        self.fns.push(json!({
            "key": key, "contract": !contract.trim().is_empty(), "known": spec.is_some(),
            "trusted": spec.as_ref().and_then(|s| s.trusted.clone()),
            "line": start, "end": self.line() - 1, "loops": nloops, "lost": lost, "inlined": inl,
            "names": names, "kinds": kinds, "renamed": map, "opaque": opaque,
        }));
    }

    fn array_const(&mut self, module: &str, name: &Ident, ty: &Type, e: &Expr) -> bool {
        let (elem, lit): (Type, ExprArray) = {
            let t = match ty { Type::Reference(r) => (*r.elem).clone(), t => t.clone() };
            let x = match e { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
            let elem = match t { Type::Slice(s) => (*s.elem).clone(), Type::Array(a) => (*a.elem).clone(), _ => return false };
            match x { Expr::Array(a) => (elem, a), _ => return false }
        };
        let n = LitInt::new(&lit.elems.len().to_string(), Span::call_site());
        if let Some(Expr::Struct(_)) = lit.elems.first() { return self.word_table(module, name, &elem, &lit); }
        let sfx = norm(&elem);
        let elems: Vec<TokenStream> = lit.elems.iter().map(|x| match x {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                let l = LitInt::new(&format!("{}{}", i.base10_digits(), sfx), Span::call_site());
                quote!(#l)
            }
            x => quote!(#x),
        }).collect();
        let lname = quote::format_ident!("{}_lit", name);
        let key = format!("{}::{}", module, name);
        self.text.push_str(&format!("// @fn {}\n", key));
        self.raw(quote!(#[verifier::opaque] pub open spec fn #lname() -> Seq<#elem> { seq![#(#elems),*] }));
        let extra = self.ov.consts.get(&key).cloned().unwrap_or_default();
        let a = print::print(quote!(#[verifier::rlimit(100)] pub exec static #name: [#elem; #n]), &print::Anno { get: &|_, _| String::new() });
        self.text.push_str(a.trim_end());
        self.text.push_str(&format!("\n    ensures {}@ == {}(),\n{}\n", name, lname, extra));
        self.text.push_str("{\n");
        self.raw(quote!(let a: [#elem; #n] = [#(#elems),*];));
        self.text.push_str(&format!("    proof {{ reveal({}); }}\n    assert(a@ =~= {}());\n    a\n}}\n", lname, lname));
        self.text.push_str(&format!("// @end {}\n\n", key));
        true
    }

    /// table of records that hold only strings: their words are taken from the literals, and the verifier compares
    fn word_table(&mut self, module: &str, name: &Ident, elem: &Type, lit: &ExprArray) -> bool {
        let mut fields: BTreeSet<String> = BTreeSet::new();
        let mut rows: Vec<BTreeMap<String, String>> = vec![];
        for e in &lit.elems {
            let mut row = BTreeMap::new();
            if let Expr::Struct(s) = e {
                for f in &s.fields {
                    match (&f.member, &f.expr) {
                        (Member::Named(n), Expr::Lit(ExprLit { lit: Lit::Str(v), .. })) => { row.insert(n.to_string(), v.value()); }
                        _ => return false,
                    }
                }
            } else { return false; }
            if rows.is_empty() { fields.extend(row.keys().cloned()); }
            rows.push(row);
        }
        let word = |s: &String| -> String {
            let c: Vec<u128> = s.chars().map(|c| c as u128).collect();
            match c.len() {
                2 => (c[0] * 0x200000 + c[1]).to_string(),
                3 => (c[0] * 0x200000 * 0x200000 + c[1] * 0x200000 + c[2] + 0x1000_0000_0000_0000_0000_0000u128).to_string(),
                _ => "-1".to_string(),
            }
        };
        let key = format!("{}::{}", module, name);
        let ty = norm(elem);
        let f: Vec<String> = fields.iter().map(|x| format!("pub {}: int", x)).collect();
        let g: Vec<String> = fields.iter().map(|x| format!("{}: word_of(l.{}@)", x, x)).collect();
        let r: Vec<String> = rows.iter().map(|row| format!("{}Words {{ {} }}", ty, row.iter().map(|(k, v)| format!("{}: {}", k, word(v))).collect::<Vec<_>>().join(", "))).collect();
        let strs: BTreeSet<&String> = rows.iter().flat_map(|r| r.values()).collect();
        let show: Vec<String> = strs.iter().map(|s| format!("reveal_strlit({:?});", s)).collect();
        let elems: Vec<TokenStream> = lit.elems.iter().map(|e| quote!(#e)).collect();
        self.text.push_str(&format!("// @fn {}\n", key));
        self.text.push_str(&format!("pub struct {}Words {{ {} }}\n", ty, f.join(", ")));
        self.text.push_str(&format!("pub open spec fn {}_words(l: {}) -> {}Words {{ {}Words {{ {} }} }}\n", name, ty, ty, ty, g.join(", ")));
        self.text.push_str(&format!("#[verifier::opaque] pub open spec fn {}_lit() -> Seq<{}Words> {{ seq![{}] }}\n", name, ty, r.join(",\n    ")));
        self.text.push_str(&format!("#[verifier::rlimit(400)] pub exec static {}: [{}; {}]\n    ensures {}@.len() == {}_lit().len(), forall|i: int| 0 <= i < {}_lit().len() ==> {}_words(#[trigger] {}@[i]) == {}_lit()[i],\n{{\n",
            name, ty, rows.len(), name, name, name, name, name, name));
        self.text.push_str(&format!("    proof {{ {} }}\n", show.join(" ")));
        let n = LitInt::new(&rows.len().to_string(), Span::call_site());
        self.raw(quote!(let a: [#elem; #n] = [#(#elems),*];));
        self.text.push_str(&format!("    proof {{ reveal({}_lit); }}\n    assert(a@.map_values(|l: {}| {}_words(l)) =~= {}_lit());\n    a\n}}\n", name, ty, name, name));
        self.text.push_str(&format!("// @end {}\n\n", key));
        true
    }

    fn derive_impls(&mut self, module: &str, s: &ItemStruct) {
        let mut derives = BTreeSet::new();
        for a in &s.attrs {
            if a.path().is_ident("derive") {
                if let Meta::List(l) = &a.meta {
                    for t in l.tokens.to_string().split(',') { derives.insert(t.trim().to_string()); }
                }
            }
        }
        let id = &s.ident;
        let ints = ["u8", "u16", "u32", "u64", "usize", "i64", "bool"];
        for d in ["Default", "Clone"] {
            if !derives.contains(d) { continue; }
            let key = format!("{}::{} for {}", module, d, id);
            if let Some(w) = self.ov.drops.get(&key) {
                self.dropped.push(json!({"item": key, "why": w}));
                continue;
            }
            let mut fs: Vec<TokenStream> = vec![];
            let mut named = true;
            for (k, f) in s.fields.iter().enumerate() {
                let ty = &f.ty;
                let t = norm(ty);
                let acc: TokenStream = match &f.ident { Some(n) => quote!(#n), None => { named = false; let ix = Index::from(k); quote!(#ix) } };
                let v = if d == "Default" {
                    if ints.contains(&t.as_str()) { if t == "bool" { quote!(false) } else { quote!(0) } }
                    else if t.starts_with("Vec<") { quote!(Vec::new()) }
                    else { quote!(<#ty>::default()) }
                } else if ints.contains(&t.as_str()) { quote!(self.#acc) }
                else if t.starts_with("Vec<(") && t.matches(',').count() == 1 { quote!(vx_clone_pairs(&self.#acc)) }
                else { quote!(self.#acc.clone()) };
                fs.push(match &f.ident { Some(n) => quote!(#n: #v), None => v });
            }
            let body: Block = if named { parse_quote!({ #id { #(#fs),* } }) } else { parse_quote!({ #id(#(#fs),*) }) };
            let sig: Signature = if d == "Default" { parse_quote!(fn default() -> Self) } else { parse_quote!(fn clone(&self) -> Self) };
            self.text.push_str(&format!("impl {} for {} {{\n", d, id));
            if let Some(t) = self.ov.inside.get(&key) { self.text.push_str(t); self.text.push('\n'); }
            self.func(module, &format!("{} for {}", d, id), &sig, Some(&body), false);
            self.text.push_str("}\n");
        }
    }

    fn module(&mut self, m: &Module) {
        let name = m.path.rsplit("::").next().unwrap().to_string();
        if !m.path.is_empty() {
            if m.macro_use { self.text.push_str("#[macro_use]\n"); }
            self.text.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\nuse crate::spec::*;\n", name));
        }
        // macros stay outside of verus!
        for it in &m.items {
            if let Item::Macro(mac) = it {
                if mac.mac.path.is_ident("macro_rules") {
                    let mut mac = mac.clone();
                    mac.attrs.retain(|a| !a.path().is_ident("doc"));
                    self.text.push_str(&quote!(#mac).to_string());
                    self.text.push('\n');
                }
            }
        }
        let ov = self.ov;
        let known = |c: &&Module| ov.modules.iter().any(|x| x == &c.path || x.starts_with(&format!("{}::", c.path)));
        let kids: Vec<&Module> = m.children.iter().filter(known).collect();
        for c in m.children.iter().filter(|c| !known(c)) { self.dropped.push(json!({"item": format!("mod {}", c.path), "why": "no contracts"})); }
        for c in kids.iter().filter(|c| c.macro_use) { self.module(c); }
        self.text.push_str("verus! {\n");
        if let Some(p) = self.ov.prelude.get(&m.path) {
            self.text.push_str(&format!("// @spec {}\n", m.path));
            self.text.push_str(p);
            self.text.push_str("// @endspec\n");
        }
        let gone: Vec<String> = m.children.iter().filter(|c| !known(c)).map(|c| c.path.rsplit("::").next().unwrap().to_string()).collect();
        for it in &m.items {
            if let Item::Use(u) = it {
                if let UseTree::Path(p) = &u.tree { if gone.contains(&p.ident.to_string()) { continue; } }
            }
            if !m.path.is_empty() && !ov.modules.contains(&m.path) && !matches!(it, Item::Use(_)) { continue; }
            self.item(&m.path, it);
        }
        self.text.push_str("} // verus!\n");
        for c in kids.iter().filter(|c| !c.macro_use) { self.module(c); }
        if !m.path.is_empty() { self.text.push_str("}\n\n"); }
    }

    fn item(&mut self, path: &str, it: &Item) {
        match it {
            Item::Use(u) => {
                let s = norm(u);
                if s.contains("std::fmt") || s.contains("usestd::{") && !s.contains("io") { return; }
                let mut u = u.clone();
                if s.contains("std::") {
                    // keep only what the verifier knows
                    if s.contains("io") { self.text.push_str("use std::io::{self, Read};\n"); }
                    return;
                }
                u.attrs.clear();
                if matches!(u.vis, Visibility::Inherited) { } else { u.vis = parse_quote!(pub); }
                self.raw(quote!(#u));
            }
            Item::Const(c) => {
                let key = format!("{}::{}", path, c.ident);
                if let Some(w) = self.ov.drops.get(&key) { self.dropped.push(json!({"item": key, "why": w})); return; }
                if !self.array_const(path, &c.ident, &c.ty, &c.expr) {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    self.raw(quote!(#c));
                }
            }
            Item::Static(c) => {
                let key = format!("{}::{}", path, c.ident);
                if let Some(w) = self.ov.drops.get(&key) { self.dropped.push(json!({"item": key, "why": w})); return; }
                if !self.array_const(path, &c.ident, &c.ty, &c.expr) {
                    self.notes.push(format!("static {} not extracted", key));
                }
            }
            Item::Struct(s) => {
                let key = format!("{}::{}", path, s.ident);
                if let Some(w) = self.ov.drops.get(&key) { self.dropped.push(json!({"item": key, "why": w})); return; }
                let mut x = s.clone();
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                strip_debug_bounds(&mut x.generics);
                for f in x.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                self.raw(quote!(#x));
                self.derive_impls(path, s);
            }
            Item::Enum(s) => {
                let mut x = s.clone();
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                for v in x.variants.iter_mut() { v.attrs.clear(); }
                self.raw(quote!(#x));
            }
            Item::Trait(t) => {
                let key = format!("{}::trait {}", path, t.ident);
                if let Some(w) = self.ov.drops.get(&key) { self.dropped.push(json!({"item": key, "why": w})); return; }
                // a flattened trait leaves only its name: the methods, default bodies included, become inherent ones
                if self.ctx.flat.contains_key(&t.ident.to_string()) {
                    let id = &t.ident;
                    self.raw(quote!(pub trait #id {}));
                    return;
                }
                let mut head = t.clone();
                head.items.clear();
                head.attrs.clear();
                head.vis = parse_quote!(pub);
                strip_debug_bounds(&mut head.generics);
                let dropped_traits = ["Debug", "AsAny"];
                head.supertraits = head.supertraits.iter().filter(|b| match b {
                    TypeParamBound::Trait(t) => !t.path.segments.last().map(|s| dropped_traits.contains(&s.ident.to_string().as_str())).unwrap_or(false),
                    _ => true,
                }).cloned().collect();
                let mut h = quote!(#head).to_string();
                let k = h.rfind('{').unwrap();
                h.truncate(k);
                if head.supertraits.is_empty() { h = h.trim_end().trim_end_matches(':').to_string(); }
                self.text.push_str(&h);
                self.text.push_str(" {\n");
                if let Some(x) = self.ov.inside.get(&key) { self.text.push_str(x); self.text.push('\n'); }
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        self.func(path, &format!("trait {}", t.ident), &f.sig, f.default.as_ref(), false);
                    }
                }
                self.text.push_str("}\n\n");
            }
            Item::Impl(i) => {
                let ik = impl_key(i);
                let key = format!("{}::{}", path, ik);
                if let Some(w) = self.ov.drops.get(&key) { self.dropped.push(json!({"item": key, "why": w})); return; }
                if ik.contains("Debug for") {
                    self.dropped.push(json!({"item": key, "why": "formatting only"}));
                    return;
                }
                let mut head = i.clone();
                head.items.clear();
                head.attrs.clear();
                strip_debug_bounds(&mut head.generics);
                let defaults: Option<Vec<TraitItemFn>> = i.trait_.as_ref()
                    .and_then(|(_, p, _)| p.segments.last().and_then(|s| self.ctx.flat.get(&s.ident.to_string()).cloned()));
                let defaults = if self.ov.flatten.contains(&key) { Some(vec![]) } else { defaults };
                if defaults.is_some() { head.trait_ = None; }
                let mut h = quote!(#head).to_string();
                let k = h.rfind('{').unwrap();
                h.truncate(k);
                self.text.push_str(&h);
                self.text.push_str(" {\n");
                let inside = self.ov.inside.get(&key).cloned();
                if let Some(x) = inside { self.text.push_str(&x); self.text.push('\n'); }
                for f in &i.items {
                    match f {
                        ImplItem::Fn(f) => {
                            if cfg_test(&f.attrs) { continue; }
                            if self.is_helper(&f.sig.ident.to_string(), path, &ik) { continue; }
                            self.func(path, &ik, &f.sig, Some(&f.block), i.trait_.is_none() || defaults.is_some());
                        }
                        ImplItem::Const(c) => { let mut c = c.clone(); c.attrs.clear(); self.raw(quote!(#c)); }
                        x => { self.raw(quote!(#x)); }
                    }
                }
                for d in defaults.unwrap_or_default() {
                    let own = i.items.iter().any(|f| match f { ImplItem::Fn(f) => f.sig.ident == d.sig.ident, _ => false });
                    if !own { self.func(path, &ik, &d.sig, d.default.as_ref(), true); }
                }
                self.text.push_str("}\n\n");
            }
            Item::Fn(f) => {
                if self.is_helper(&f.sig.ident.to_string(), path, "") { return; }
                self.func(path, "", &f.sig, Some(&f.block), true);
            }
            Item::Macro(_) => {}
            Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); self.raw(quote!(#t)); }
            x => { self.notes.push(format!("item not extracted: {}", norm(x).chars().take(60).collect::<String>())); }
        }
    }

    fn is_helper(&self, name: &str, path: &str, owner: &str) -> bool {
        let key = if owner.is_empty() { format!("{}::{}", path, name) } else { format!("{}::{}::{}", path, owner, name) };
        !self.ov.fns.contains_key(&key) && self.helper_names.contains(&key)
    }
}

fn collect(m: &Module, ov: &Overlay, ctx: &mut Ctx, helpers: &mut BTreeSet<String>, fields: &mut BTreeMap<String, BTreeSet<String>>) {
    let known = m.path.is_empty() || ov.modules.contains(&m.path);
    for it in m.items.iter().filter(|_| known) {
        match it {
            Item::Struct(s) => for f in &s.fields {
                if let Some(n) = &f.ident { fields.entry(n.to_string()).or_default().insert(norm(&f.ty)); }
            },
            Item::Fn(f) => {
                let key = format!("{}::{}", m.path, f.sig.ident);
                if !ov.fns.contains_key(&key) {
                    helpers.insert(key);
                    ctx.helpers.push(Helper { name: f.sig.ident.to_string(), owner: None, ambiguous: false, sig: f.sig.clone(), block: (*f.block).clone() });
                }
            }
            Item::Trait(t) if ov.flatten.contains(&format!("{}::trait {}", m.path, t.ident)) => {
                let fs = t.items.iter().filter_map(|i| match i { TraitItem::Fn(f) if f.default.is_some() => Some(f.clone()), _ => None }).collect();
                ctx.flat.insert(t.ident.to_string(), fs);
            }
            Item::Impl(i) => {
                let ik = impl_key(i);
                for f in &i.items {
                    if let ImplItem::Fn(f) = f {
                        if cfg_test(&f.attrs) { continue; }
                        let key = format!("{}::{}::{}", m.path, ik, f.sig.ident);
                        if f.sig.ident == "iter" && i.trait_.is_none() {
                            if let Some(Stmt::Expr(e, None)) = f.block.stmts.last() {
                                if f.block.stmts.len() == 1 { ctx.iters.insert(ik.clone(), e.clone()); }
                            }
                        }
                        if i.trait_.is_none() && !ov.fns.contains_key(&key) {
                            helpers.insert(key);
                            ctx.helpers.push(Helper { name: f.sig.ident.to_string(), owner: Some(ik.clone()), ambiguous: false, sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for c in &m.children { collect(c, ov, ctx, helpers, fields); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let contracts = PathBuf::from(&args[2]);
    let out = PathBuf::from(&args[3]);
    let mut roles: BTreeMap<String, BTreeMap<String, String>> = Default::default();
    let mut opaque: BTreeSet<String> = Default::default();
    if let Some(r) = args.get(4) {
        if let Ok(t) = std::fs::read_to_string(r) {
            let v: Value = serde_json::from_str(&t).unwrap_or_default();
            roles = serde_json::from_value(v["roles"].clone()).unwrap_or_default();
            opaque = serde_json::from_value(v["opaque"].clone()).unwrap_or_default();
        }
    }
    let base_names: BTreeMap<String, Vec<String>> = std::fs::read_to_string(contracts.join("names.json")).ok()
        .and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();

    let ov = overlay::load(&contracts);
    let mut root = load(&repo.join("src/lib.rs"), "", &repo.join("src"), false);
    consts::inline(&mut root);
    let mut ctx = Ctx::default();
    let mut helper_names = BTreeSet::new();
    let mut fields: BTreeMap<String, BTreeSet<String>> = Default::default();
    collect(&root, &ov, &mut ctx, &mut helper_names, &mut fields);
    // a method that shares its name with a known function or with std is not inlined by name
    let known: BTreeSet<String> = ov.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    let std_names = ["len", "push", "get", "iter", "clear", "is_empty", "clone", "resize", "extend_from_slice", "first", "last",
        "get_mut", "truncate", "read", "into", "from", "default", "min", "max", "unwrap", "reserve", "drain", "fold", "position"];
    for h in ctx.helpers.iter_mut() {
        if known.contains(&h.name) || std_names.contains(&h.name.as_str()) { h.ambiguous = true; }
    }
    for (k, v) in fields { if v.len() == 1 { ctx.fields.insert(k, v.into_iter().next().unwrap()); } }

    let vxmod = std::fs::read_to_string(contracts.join("vx.rs")).unwrap();
    let mut specs = String::new();
    let mut names: Vec<_> = std::fs::read_dir(contracts.join("spec")).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for f in &names {
        let n = f.file_stem().unwrap().to_string_lossy().to_string();
        specs.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\nuse super::*;\n{}\n}}\npub use {}::*;\n", n, std::fs::read_to_string(f).unwrap(), n));
    }

    let mut o = Out { ov: &ov, ctx: &ctx, text: String::new(), fns: vec![], dropped: vec![], used: Default::default(),
        roles: &roles, opaque: &opaque, helper_names, inlined: Default::default(), notes: vec![], base_names: &base_names };
    o.text.push_str("// generated by vx from the current source of the crate; do not edit\n");
    o.text.push_str("#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_upper_case_globals, dead_code)]\n#![verifier::loop_isolation(false)]\n");
    o.text.push_str("use vstd::prelude::*;\n");
    o.text.push_str(&format!("pub mod vx {{\n{}\n}}\npub use vx::*;\n", vxmod));
    o.text.push_str(&format!("pub mod spec {{\nuse vstd::prelude::*;\nuse crate::vx::*;\n{}\n}}\n", specs));
    o.module(&root);
    let canary = std::fs::read_to_string(contracts.join("canary.rs")).unwrap_or_default();
    o.text.push_str(&format!("pub mod vx_canary {{\n{}\n}}\n", canary));
    o.text.push_str("fn main() {}\n");
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(out.join("gen.rs"), &o.text).unwrap();
    let lost: Vec<String> = ov.fns.keys().filter(|k| !o.used.contains(*k)).cloned().collect();
    let not_inlined: Vec<String> = ctx.helpers.iter().map(|h| h.name.clone()).filter(|n| !o.inlined.contains(n)).collect();
    let rep = json!({ "fns": o.fns, "dropped": o.dropped, "lost_keys": lost, "helpers": o.helper_names, "helpers_unused": not_inlined, "notes": o.notes });
    std::fs::write(out.join("report.json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
