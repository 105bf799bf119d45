//! Integer constants written out as literals where function bodies use them, so that products and quotients by a
//! constant stay linear for the verifier.
use std::collections::{BTreeMap, BTreeSet};
use syn::{*, visit_mut::{self, VisitMut}};
use proc_macro2::Span;
use quote::quote;
use crate::Module;

/// module path, name -> type and value
pub type Consts = BTreeMap<(String, String), (String, u128)>;

fn bits(ty: &str) -> Option<u32> {
    Some(match ty { "u8" => 8, "u16" => 16, "u32" => 32, "u64" | "usize" => 64, _ => return None })
}

/// name as seen from a module: its own constant, or the only one of that name
fn find<'a>(all: &'a Consts, module: &str, p: &Path) -> Option<&'a (String, u128)> {
    let name = p.segments.last()?.ident.to_string();
    if p.segments.iter().any(|s| !s.arguments.is_empty()) { return None; }
    if p.segments.len() == 1 { if let Some(c) = all.get(&(module.to_string(), name.clone())) { return Some(c); } }
    let mut found: Vec<_> = all.iter().filter(|((_, n), _)| *n == name).collect();
    if p.segments.len() > 1 {
        let q = p.segments[p.segments.len() - 2].ident.to_string();
        found.retain(|((m, _), _)| ["self", "super", "crate"].contains(&q.as_str()) || m.split("::").any(|x| x == q));
    }
    if found.len() == 1 { Some(found[0].1) } else { None }
}

fn eval(e: &Expr, all: &Consts, module: &str) -> Option<u128> {
    match e {
        Expr::Lit(l) => if let Lit::Int(i) = &l.lit { i.base10_parse().ok() } else { None },
        Expr::Paren(p) => eval(&p.expr, all, module),
        Expr::Group(p) => eval(&p.expr, all, module),
        Expr::Path(p) if p.qself.is_none() => find(all, module, &p.path).map(|c| c.1),
        Expr::Cast(c) => {
            let t = &c.ty;
            let w = bits(&quote!(#t).to_string())?;
            eval(&c.expr, all, module).filter(|v| v >> w == 0)
        }
        Expr::Binary(b) => {
            let (x, y) = (eval(&b.left, all, module)?, eval(&b.right, all, module)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y),
                BinOp::Sub(_) => x.checked_sub(y),
                BinOp::Mul(_) => x.checked_mul(y),
                BinOp::Div(_) => x.checked_div(y),
                BinOp::Shl(_) if y < 64 && x >> 64 == 0 => Some(x << y),
                _ => None,
            }
        }
        _ => None,
    }
}

fn collect<'a>(m: &'a Module, out: &mut Vec<(&'a str, &'a ItemConst)>) {
    for it in &m.items { if let Item::Const(c) = it { out.push((&m.path, c)); } }
    for c in &m.children { collect(c, out); }
}

struct Local(BTreeSet<String>);
impl VisitMut for Local {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) { self.0.insert(c.ident.to_string()); }
}

struct Write<'a> { all: &'a Consts, module: &'a str, local: BTreeSet<String> }
impl<'a> VisitMut for Write<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_some() || p.path.get_ident().map_or(false, |i| self.local.contains(&i.to_string())) { return; }
            if let Some((t, v)) = find(self.all, self.module, &p.path) {
                let l = LitInt::new(&format!("{}{}", v, t), Span::call_site());
                *e = parse_quote!(#l);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    // constants in patterns stay
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
}

fn write(m: &mut Module, all: &Consts) {
    let path = m.path.clone();
    let mut body = |b: &mut Block| {
        let mut l = Local(BTreeSet::new());
        l.visit_block_mut(b);
        Write { all, module: &path, local: l.0 }.visit_block_mut(b);
    };
    for it in m.items.iter_mut() {
        match it {
            Item::Fn(f) => body(&mut f.block),
            Item::Impl(i) => for f in i.items.iter_mut() { if let ImplItem::Fn(f) = f { body(&mut f.block); } },
            Item::Trait(t) => for f in t.items.iter_mut() { if let TraitItem::Fn(f) = f { if let Some(b) = &mut f.default { body(b); } } },
            _ => {}
        }
    }
    for c in m.children.iter_mut() { write(c, all); }
}

pub fn inline(root: &mut Module) {
    let mut all = Consts::new();
    {
        let mut list = vec![];
        collect(root, &mut list);
        // constants defined by constants
        for _ in 0 .. 4 {
            for (m, c) in &list {
                let ty = &c.ty;
                let ty = quote!(#ty).to_string();
                if let (Some(w), Some(v)) = (bits(&ty), eval(&c.expr, &all, m)) {
                    if v >> w == 0 { all.insert((m.to_string(), c.ident.to_string()), (ty, v)); }
                }
            }
        }
    }
    write(root, &all);
}
