//! Expansion of a `macro_rules!` call in a constant: fragments `expr`, `ident`, `literal`, `ty`, `tt` and repetitions.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum B { One(TokenStream), Rep(Vec<B>) }

type Binds = BTreeMap<String, B>;
type Toks = Vec<TokenTree>;

fn is_p(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

fn ident(t: Option<&TokenTree>) -> Option<String> { if let Some(TokenTree::Ident(i)) = t { Some(i.to_string()) } else { None } }

fn toks(s: TokenStream) -> Toks { s.into_iter().collect() }

fn take<T: syn::parse::Parse + quote::ToTokens>(input: &[TokenTree]) -> Option<(TokenStream, Toks)> {
    let ts: TokenStream = input.iter().cloned().collect();
    let f = |p: ParseStream| -> Result<(TokenStream, TokenStream)> { let x: T = p.parse()?; let rest: TokenStream = p.parse()?; Ok((quote::quote!(#x), rest)) };
    f.parse2(ts).ok().map(|(a, b)| (a, toks(b)))
}

/// separator and operator behind `$( .. )`
fn rep_tail(p: &[TokenTree], mut i: usize) -> Option<(Option<TokenTree>, char, usize)> {
    let mut sep = None;
    for _ in 0 .. 2 {
        match p.get(i) {
            Some(TokenTree::Punct(x)) if "*+?".contains(x.as_char()) => return Some((sep, x.as_char(), i + 1)),
            Some(t) => { sep = Some(t.clone()); i += 1; }
            None => return None,
        }
    }
    None
}

fn vars(p: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        if let TokenTree::Group(g) = t { vars(&toks(g.stream()), out); }
        if i > 0 && is_p(p.get(i - 1), '$') { if let Some(n) = ident(Some(t)) { out.push(n); } }
    }
}

fn matches(p: &[TokenTree], mut input: Toks, b: &mut Binds) -> Option<Toks> {
    let mut i = 0;
    while i < p.len() {
        if is_p(p.get(i), '$') {
            if let Some(TokenTree::Group(g)) = p.get(i + 1) {
                let inner = toks(g.stream());
                let (sep, op, next) = rep_tail(p, i + 2)?;
                let mut names = vec![];
                vars(&inner, &mut names);
                for n in &names { b.insert(n.clone(), B::Rep(vec![])); }
                let mut count = 0;
                loop {
                    let mut from = input.clone();
                    if count > 0 {
                        if op == '?' { break; }
                        if let Some(s) = &sep {
                            if from.first().map(|x| x.to_string()) != Some(s.to_string()) { break; }
                            from.remove(0);
                        }
                    }
                    if from.is_empty() { break; }
                    let mut one = Binds::new();
                    match matches(&inner, from, &mut one) {
                        Some(rest) => input = rest,
                        None => break,
                    }
                    for (n, v) in one { if let Some(B::Rep(l)) = b.get_mut(&n) { l.push(v); } }
                    count += 1;
                }
                if op == '+' && count == 0 { return None; }
                i = next;
                continue;
            }
            let name = ident(p.get(i + 1))?;
            if !is_p(p.get(i + 2), ':') { return None; }
            let (v, rest) = match ident(p.get(i + 3))?.as_str() {
                "expr" => take::<Expr>(&input)?,
                "ident" => take::<Ident>(&input)?,
                "literal" => take::<Lit>(&input)?,
                "ty" => take::<Type>(&input)?,
                "tt" => { if input.is_empty() { return None; } let r = input.split_off(1); (input.into_iter().collect(), r) }
                _ => return None,
            };
            b.insert(name, B::One(v));
            input = rest;
            i += 4;
            continue;
        }
        if input.is_empty() { return None; }
        match (&p[i], &input[0]) {
            (TokenTree::Group(x), TokenTree::Group(y)) => {
                if x.delimiter() != y.delimiter() { return None; }
                if !matches(&toks(x.stream()), toks(y.stream()), b)?.is_empty() { return None; }
            }
            (x, y) => if x.to_string() != y.to_string() { return None; },
        }
        input.remove(0);
        i += 1;
    }
    Some(input)
}

fn write(p: &[TokenTree], b: &Binds) -> Option<TokenStream> {
    let mut out: Toks = vec![];
    let mut i = 0;
    while i < p.len() {
        if is_p(p.get(i), '$') {
            if let Some(TokenTree::Group(g)) = p.get(i + 1) {
                let inner = toks(g.stream());
                let (sep, _, next) = rep_tail(p, i + 2)?;
                let mut names = vec![];
                vars(&inner, &mut names);
                let n = names.iter().find_map(|n| if let Some(B::Rep(l)) = b.get(n) { Some(l.len()) } else { None })?;
                for k in 0 .. n {
                    let mut one = b.clone();
                    for x in &names { if let Some(B::Rep(l)) = b.get(x) { one.insert(x.clone(), l.get(k)?.clone()); } }
                    if k > 0 { out.extend(sep.clone()); }
                    out.extend(write(&inner, &one)?);
                }
                i = next;
                continue;
            }
            match b.get(&ident(p.get(i + 1))?)? { B::One(t) => out.extend(t.clone()), B::Rep(_) => return None }
            i += 2;
            continue;
        }
        match &p[i] {
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), write(&toks(g.stream()), b)?))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Some(out.into_iter().collect())
}

fn expand(def: &TokenStream, input: TokenStream) -> Option<TokenStream> {
    let d = toks(def.clone());
    let mut i = 0;
    while i + 3 < d.len() {
        if let (TokenTree::Group(p), TokenTree::Group(x)) = (&d[i], &d[i + 3]) {
            let mut b = Binds::new();
            if let Some(rest) = matches(&toks(p.stream()), toks(input.clone()), &mut b) {
                if rest.is_empty() { return write(&toks(x.stream()), &b); }
            }
        }
        i += 4;
        if is_p(d.get(i), ';') { i += 1; }
    }
    None
}

struct V<'a>(&'a BTreeMap<String, TokenStream>);
impl<'a> VisitMut for V<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(def) = m.mac.path.get_ident().and_then(|n| self.0.get(&n.to_string())) {
                if let Some(x) = expand(def, m.mac.tokens.clone()).and_then(|t| parse2::<Expr>(t).ok()) { *e = x; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // `{ x }`
        if let Expr::Block(b) = e {
            if b.label.is_none() && b.attrs.is_empty() && b.block.stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &b.block.stmts[0] { *e = x.clone(); }
            }
        }
    }
}

/// writes out macro calls in the constants of a module
pub fn constants(items: &mut Vec<Item>) {
    let mut defs = BTreeMap::new();
    for it in items.iter() {
        if let Item::Macro(m) = it { if let (true, Some(n)) = (m.mac.path.is_ident("macro_rules"), &m.ident) { defs.insert(n.to_string(), m.mac.tokens.clone()); } }
    }
    if defs.is_empty() { return; }
    for it in items.iter_mut() {
        match it {
            Item::Const(c) => V(&defs).visit_expr_mut(&mut c.expr),
            Item::Static(c) => V(&defs).visit_expr_mut(&mut c.expr),
            _ => {}
        }
    }
}
