//! Lowerings applied to function bodies. Each one is listed in DESIGN.md.
use crate::overlay::FnSpec;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub owner: Option<String>,
    pub ambiguous: bool,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Default)]
pub struct Ctx {
    /// functions of /repo that the contracts do not know: inlined at the call sites
    pub helpers: Vec<Helper>,
    /// user `iter()` methods: type -> body expression using self
    pub iters: BTreeMap<String, Expr>,
    /// field name -> type name, when unique over all structs
    pub fields: BTreeMap<String, String>,
    /// flattened traits: name -> methods with a default body
    pub flat: BTreeMap<String, Vec<TraitItemFn>>,
}

pub struct Lower<'a> {
    pub ctx: &'a Ctx,
    pub spec: Option<&'a FnSpec>,
    pub loops: usize,
    pub continues: usize,
    pub inl: usize,
    pub used: BTreeSet<String>,
    pub placed: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub asref: BTreeSet<String>,
    pub depth: usize,
    pub tail: bool,
    /// the exit hint is repeated at the returns
    pub exits: bool,
    pub ret: Option<Type>,
    pub names: BTreeMap<String, String>,
}

const MUT_METHODS: &[&str] = &["set_u16", "set_u24", "set_u32", "copy_from_slice", "fill", "iter_mut", "swap"];

fn hint(place: &str) -> Stmt {
    parse_quote!(vx_hint!(#place);)
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

fn range_parts(e: &Expr) -> Option<(Option<Expr>, Option<Expr>)> {
    if let Expr::Range(r) = strip_paren(e) {
        let lo = r.start.as_ref().map(|x| (**x).clone());
        let hi = match (&r.limits, r.end.as_ref()) {
            (_, None) => None,
            (RangeLimits::HalfOpen(_), Some(x)) => Some((**x).clone()),
            (RangeLimits::Closed(_), Some(x)) => { let x = (**x).clone(); Some(parse_quote!((#x) + 1)) }
        };
        return Some((lo, hi));
    }
    None
}

fn mut_index(base: &Expr, lo: Option<Expr>, hi: Option<Expr>) -> Expr {
    match (lo, hi) {
        (Some(a), Some(b)) => parse_quote!(#base.vx_mut_range(#a, #b)),
        (Some(a), None) => parse_quote!(#base.vx_mut_from(#a)),
        (None, Some(b)) => parse_quote!(#base.vx_mut_to(#b)),
        (None, None) => parse_quote!(#base.vx_mut_from(0)),
    }
}

/// Iteration source recognised by the loop lowering
#[derive(Clone)]
struct Source {
    kind: Kind,
    enumerate: bool,
    rev: bool,
}

#[derive(Clone)]
enum Kind {
    Ref(Expr),
    Mut(Expr),
    Range(Expr, Expr, bool),
    Chars(Expr),
}

impl<'a> Lower<'a> {
    pub fn new(ctx: &'a Ctx, spec: Option<&'a FnSpec>) -> Self {
        Lower { ctx, spec, loops: 0, continues: 0, inl: 0, used: Default::default(), placed: Default::default(),
            inlined: Default::default(), asref: Default::default(), depth: 0, tail: false, exits: false, ret: None, names: Default::default() }
    }

    fn has_hint(&mut self, place: &str) -> bool {
        let r = self.spec.map(|s| s.hints.iter().any(|(p, _)| p == place)).unwrap_or(false);
        if r { self.placed.insert(place.to_string()); }
        r
    }

    fn type_of_place(&self, e: &Expr) -> Option<String> {
        match strip_paren(e) {
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    return self.ctx.fields.get(&n.to_string()).cloned();
                }
                None
            }
            _ => None,
        }
    }

    fn user_iter(&self, recv: &Expr) -> Option<Expr> {
        let ty = self.type_of_place(recv)?;
        let body = self.ctx.iters.get(&ty)?;
        struct S<'b>(&'b Expr);
        impl<'b> VisitMut for S<'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if p.path.is_ident("self") { *e = self.0.clone(); return; }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut b = body.clone();
        S(recv).visit_expr_mut(&mut b);
        Some(b)
    }

    fn source(&self, e: &Expr) -> Option<Source> {
        match strip_paren(e) {
            Expr::Reference(r) => {
                let k = if r.mutability.is_some() { Kind::Mut((*r.expr).clone()) } else { Kind::Ref((*r.expr).clone()) };
                Some(Source { kind: k, enumerate: false, rev: false })
            }
            Expr::Range(r) => {
                let lo = r.start.as_ref()?;
                let hi = r.end.as_ref()?;
                Some(Source { kind: Kind::Range((**lo).clone(), (**hi).clone(), matches!(r.limits, RangeLimits::Closed(_))), enumerate: false, rev: false })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => {
                        if let Some(b) = self.user_iter(&m.receiver) {
                            return self.source(&b);
                        }
                        Some(Source { kind: Kind::Ref((*m.receiver).clone()), enumerate: false, rev: false })
                    }
                    ("iter_mut", 0) => Some(Source { kind: Kind::Mut((*m.receiver).clone()), enumerate: false, rev: false }),
                    ("chars", 0) => Some(Source { kind: Kind::Chars((*m.receiver).clone()), enumerate: false, rev: false }),
                    ("enumerate", 0) => {
                        let mut s = self.source(&m.receiver)?;
                        if s.enumerate || s.rev || matches!(s.kind, Kind::Range(..)) { return None; }
                        s.enumerate = true;
                        Some(s)
                    }
                    ("rev", 0) => {
                        let mut s = self.source(&m.receiver)?;
                        if s.enumerate || s.rev || matches!(s.kind, Kind::Range(..)) { return None; }
                        s.rev = true;
                        Some(s)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Builds `{ let mut i = ..; while .. { let pat = ..; body } }`.
    /// `pre` is placed before the loop (inside of the block), `tail` after it.
    fn build_loop(&mut self, src: Source, pat: &Pat, label: Option<Label>, body: Vec<Stmt>, pre: Vec<Stmt>, tail: Option<Expr>, exit: Vec<Stmt>) -> Expr {
        let n = self.loops;
        self.loops += 1;
        let i = format_ident!("vx_i{}", n);
        let nl: LitInt = LitInt::new(&n.to_string(), Span::call_site());
        let mut st: Vec<Stmt> = pre;
        let mut head: Vec<Stmt> = Vec::new();
        let cond: Expr;
        match src.kind {
            Kind::Range(lo, hi, closed) => {
                let e = format_ident!("vx_e{}", n);
                let (lo, hi) = (self.expr(lo), self.expr(hi));
                // keep the type of a typed bound for an untyped one
                st.push(parse_quote!(let #e = #hi;));
                st.push(parse_quote!(let mut #i = #lo;));
                cond = if closed { parse_quote!(#i <= #e) } else { parse_quote!(#i < #e) };
                head.push(parse_quote!(let #pat = #i;));
                head.push(parse_quote!(#i = #i + 1;));
            }
            k => {
                let (e, is_mut, by_value) = match k {
                    Kind::Ref(e) => (e, false, false),
                    Kind::Mut(e) => (e, true, false),
                    Kind::Chars(e) => (parse_quote!(vx_chars(#e)), false, true),
                    _ => unreachable!(),
                };
                let place: Expr = if is_place(&e) { self.expr(e) } else {
                    let s = format_ident!("vx_s{}", n);
                    let is_call = matches!(strip_paren(&e), Expr::Call(_));
                    if is_mut {
                        let x = self.expr(parse_quote!(&mut #e));
                        st.push(parse_quote!(let #s = #x;));
                    } else {
                        let x = self.expr(e);
                        if is_call { st.push(parse_quote!(let #s = #x;)); } else { st.push(parse_quote!(let #s = &#x;)); }
                    }
                    parse_quote!(#s)
                };
                st.push(parse_quote!(let mut #i: usize = 0;));
                cond = parse_quote!(#i < #place.len());
                let ix: Expr = if src.rev {
                    let k = format_ident!("vx_k{}", n);
                    head.push(parse_quote!(let #k = #place.len() - 1 - #i;));
                    parse_quote!(#k)
                } else { parse_quote!(#i) };
                let elem: Expr = if by_value { parse_quote!(#place[#ix]) } else if is_mut { parse_quote!(&mut #place[#ix]) } else { parse_quote!(&#place[#ix]) };
                if src.enumerate {
                    if let Pat::Tuple(t) = pat {
                        let a = &t.elems[0];
                        let b = &t.elems[1];
                        head.push(parse_quote!(let #a = #i;));
                        if by_value { head.push(parse_quote!(let #b = #elem;)); } else { head.extend(bind(b, elem)); }
                    } else {
                        head.push(parse_quote!(let #pat = (#i, #elem);));
                    }
                } else if by_value {
                    head.push(parse_quote!(let #pat = #elem;));
                } else {
                    head.extend(bind(pat, elem));
                }
                head.push(parse_quote!(#i = #i + 1;));
            }
        }
        if self.has_hint(&format!("loop {} entry", n)) {
            head.push(hint(&format!("loop {} entry", n)));
        }
        let mut inner: Vec<Stmt> = head;
        for mut s in body {
            self.visit_stmt_mut(&mut s);
            inner.push(s);
        }
        inner.extend(exit);
        if self.has_hint(&format!("loop {} exit", n)) {
            inner.push(Stmt::Expr(parse_quote!({}), None));
            inner.push(hint(&format!("loop {} exit", n)));
        }
        let w: Stmt = match label {
            Some(l) => parse_quote!(#l while #cond { vx_loop!(#nl); #(#inner)* }),
            None => parse_quote!(while #cond { vx_loop!(#nl); #(#inner)* }),
        };
        if self.has_hint(&format!("before loop {}", n)) {
            st.push(hint(&format!("before loop {}", n)));
        }
        st.push(w);
        if self.has_hint(&format!("after loop {}", n)) {
            st.push(hint(&format!("after loop {}", n)));
        }
        match tail {
            Some(t) => parse_quote!({ #(#st)* #t }),
            None => parse_quote!({ #(#st)* }),
        }
    }

    fn expr(&mut self, mut e: Expr) -> Expr {
        self.visit_expr_mut(&mut e);
        e
    }

    /// iterator chains ending in a consuming adaptor
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let closure = |e: &Expr| -> Option<ExprClosure> {
            if let Expr::Closure(c) = strip_paren(e) { Some(c.clone()) } else { None }
        };
        let n = self.loops;
        let acc = format_ident!("vx_acc{}", n);
        match name.as_str() {
            "fold" if m.args.len() == 2 => {
                let src = self.source(&m.receiver)?;
                let c = closure(&m.args[1])?;
                let init = self.expr(m.args[0].clone());
                let a = unty(&c.inputs[0]);
                let x = unty(&c.inputs[1]);
                let body = &c.body;
                let b: Vec<Stmt> = vec![parse_quote!(let #a = #acc;), parse_quote!(#acc = #body;)];
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                Some(self.build_loop(src, &x, None, b, pre, Some(parse_quote!(#acc)), vec![]))
            }
            "sum" if m.args.is_empty() => {
                let (src, map) = match strip_paren(&m.receiver) {
                    Expr::MethodCall(mm) if mm.method == "map" => (self.source(&mm.receiver)?, Some(closure(&mm.args[0])?)),
                    r => (self.source(r)?, None),
                };
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }));
                let pre: Vec<Stmt> = match ty {
                    Some(t) => vec![parse_quote!(let mut #acc: #t = 0;)],
                    None => vec![parse_quote!(let mut #acc = 0;)],
                };
                let (pat, body): (Pat, Expr) = match map {
                    Some(c) => (unty(&c.inputs[0]), (*c.body).clone()),
                    None => (parse_quote!(vx_x), parse_quote!(*vx_x)),
                };
                Some(self.build_loop(src, &pat, None, vec![parse_quote!(#acc = #acc + #body;)], pre, Some(parse_quote!(#acc)), vec![]))
            }
            "position" | "any" | "all" if m.args.len() == 1 => {
                let src = self.source(&m.receiver)?;
                if src.rev { return None; }
                let c = closure(&m.args[0])?;
                let body = &c.body;
                let i = format_ident!("vx_i{}", n);
                let mut pat = unty(&c.inputs[0]);
                // the closure of `any`/`all`/`position` receives the item itself
                if let Pat::Reference(r) = &pat { pat = Pat::Reference(r.clone()); }
                let (init, b): (Stmt, Vec<Stmt>) = match name.as_str() {
                    "position" => (parse_quote!(let mut #acc: Option<usize> = None;), vec![parse_quote!(if #body { #acc = Some(#i - 1); break; })]),
                    "any" => (parse_quote!(let mut #acc = false;), vec![parse_quote!(if #body { #acc = true; break; })]),
                    _ => (parse_quote!(let mut #acc = true;), vec![parse_quote!(if !(#body) { #acc = false; break; })]),
                };
                Some(self.build_loop(src, &pat, None, b, vec![init], Some(parse_quote!(#acc)), vec![]))
            }
            "for_each" if m.args.len() == 1 => {
                let src = self.source(&m.receiver)?;
                let c = closure(&m.args[0])?;
                let body = &c.body;
                let pat = unty(&c.inputs[0]);
                Some(self.build_loop(src, &pat, None, vec![parse_quote!(#body;)], vec![], None, vec![]))
            }
            _ => None,
        }
    }

    fn find_helper(&self, name: &str, method: bool) -> Option<Helper> {
        let c: Vec<&Helper> = self.ctx.helpers.iter().filter(|h| h.name == name).collect();
        if c.len() != 1 { return None; }
        let h = c[0];
        if method && (h.ambiguous || h.sig.receiver().is_none()) { return None; }
        Some(h.clone())
    }

    fn inline(&mut self, h: Helper, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 { return None; }
        let k = self.inl;
        self.inl += 1;
        let lab = Lifetime::new(&format!("'vx_inl{}", k), Span::call_site());
        let mut st: Vec<Stmt> = vec![];
        let mut block = h.block.clone();
        let mut args = args.into_iter();
        let mut params: Vec<(Pat, Type)> = vec![];
        for inp in &h.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let rv = match &recv { Some(x) => x.clone(), None => args.next()? };
                    let is_self = matches!(strip_paren(&rv), Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        let me = format_ident!("vx_self{}", k);
                        let v: Expr = if r.reference.is_some() {
                            if r.mutability.is_some() { parse_quote!(&mut #rv) } else { parse_quote!(&#rv) }
                        } else { rv };
                        st.push(parse_quote!(let #me = #v;));
                        RenameSelf(me).visit_block_mut(&mut block);
                    }
                }
                FnArg::Typed(t) => {
                    params.push(((*t.pat).clone(), (*t.ty).clone()));
                }
            }
        }
        let mut post: Vec<Stmt> = vec![];
        for (j, (p, t)) in params.into_iter().enumerate() {
            let a = args.next()?;
            let tmp = format_ident!("vx_arg{}_{}", k, j);
            let has_impl = t.to_token_stream().to_string().contains("impl ") || !h.sig.generics.params.is_empty();
            if has_impl {
                st.push(parse_quote!(let #tmp = #a;));
                post.push(parse_quote!(let #p = #tmp;));
            } else {
                let t = strip_lt(t);
                st.push(parse_quote!(let #tmp: #t = #a;));
                post.push(parse_quote!(let #p: #t = #tmp;));
            }
        }
        struct Ret(Lifetime, bool, bool);
        impl VisitMut for Ret {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Return(r) = e {
                    self.1 = true;
                    let l = self.0.clone();
                    let x = r.expr.take();
                    *e = match x {
                        Some(mut x) => { self.visit_expr_mut(&mut x); parse_quote!(break #l #x) }
                        None => parse_quote!(break #l),
                    };
                    return;
                }
                if let Expr::Try(_) = e { self.2 = true; }
                if let Expr::Closure(_) = e { return; }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        if io_result(&h.sig.output) { untry(&mut block); }
        // at the end of the function the returns of the helper are those of the function
        let mut tail = std::mem::take(&mut self.tail);
        if let Some(st) = unreturn(&block.stmts) { block.stmts = st; }
        if !returns(&block) && !tries(&block) { tail = false; }
        if tail { mark_tail(&mut block); }
        let mut r = Ret(lab.clone(), false, false);
        if tail {
            self.inlined.insert(h.name.clone());
            let stmts = &block.stmts;
            self.depth += 1;
            let e = self.expr(parse_quote!({ #(#st)* #(#post)* #(#stmts)* }));
            self.depth -= 1;
            return Some(e);
        }
        r.visit_block_mut(&mut block);
        if r.2 { return None; }
        self.inlined.insert(h.name.clone());
        let stmts = &block.stmts;
        let e: Expr = if r.1 {
            parse_quote!({ #(#st)* #lab : { #(#post)* #(#stmts)* } })
        } else {
            parse_quote!({ #(#st)* #(#post)* #(#stmts)* })
        };
        self.depth += 1;
        let e = self.expr(e);
        self.depth -= 1;
        Some(e)
    }
}

fn returns(t: &impl ToTokens) -> bool {
    fn has(ts: TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == "return",
            TokenTree::Group(g) => has(g.stream()),
            _ => false,
        })
    }
    has(t.to_token_stream())
}

fn tries(b: &Block) -> bool {
    struct T(bool);
    impl VisitMut for T {
        fn visit_expr_try_mut(&mut self, _: &mut ExprTry) { self.0 = true; }
    }
    let mut t = T(false);
    t.visit_block_mut(&mut b.clone());
    t.0
}

fn diverges(st: &[Stmt]) -> bool {
    match st.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => diverges(&i.then_branch.stmts) && match &i.else_branch {
            Some((_, e)) => match &**e { Expr::Block(b) => diverges(&b.block.stmts), x => diverges(&[Stmt::Expr(x.clone(), None)]) },
            None => false,
        },
        _ => false,
    }
}

/// early returns as the branches of an `if`; None when the body is not of that form
fn unreturn(st: &[Stmt]) -> Option<Vec<Stmt>> {
    let k = match st.iter().position(|s| returns(s)) { Some(k) => k, None => return Some(st.to_vec()) };
    let mut out = st[.. k].to_vec();
    match &st[k] {
        Stmt::Expr(Expr::Return(r), _) => {
            let e = match &r.expr { Some(e) => (**e).clone(), None => parse_quote!(()) };
            if returns(&e) { return None; }
            out.push(Stmt::Expr(e, None));
        }
        Stmt::Expr(Expr::If(i), _) => {
            if returns(&i.cond) { return None; }
            let rest = &st[k + 1 ..];
            let yes = i.then_branch.stmts.clone();
            let no = match &i.else_branch {
                Some((_, e)) => match &**e { Expr::Block(b) => b.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), None)] },
                None => vec![],
            };
            let join = |a: Vec<Stmt>| -> Option<Vec<Stmt>> {
                if diverges(&a) || rest.is_empty() { return unreturn(&a); }
                let mut a = a;
                if let Some(Stmt::Expr(_, semi)) = a.last_mut() { semi.get_or_insert_with(Default::default); }
                a.extend(rest.iter().cloned());
                unreturn(&a)
            };
            if !rest.is_empty() && !diverges(&yes) && !diverges(&no) { return None; }
            let (yes, no) = (join(yes)?, join(no)?);
            let c = &i.cond;
            out.push(Stmt::Expr(parse_quote!(if #c { #(#yes)* } else { #(#no)* }), None));
        }
        Stmt::Local(l) if matches!(&l.init, Some(i) if i.diverge.is_none() && matches!(&*i.expr, Expr::Match(_))) => {
            // let p = match e { .. => v, .. => return r };
            let m = match &*l.init.as_ref().unwrap().expr { Expr::Match(m) => m.clone(), _ => return None };
            let pat = &l.pat;
            out.push(arms(m, &mut |v| {
                let mut b: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                b.extend(st[k + 1 ..].iter().cloned());
                b
            })?);
        }
        Stmt::Expr(Expr::Match(m), semi) => {
            let rest = &st[k + 1 ..];
            let semi = *semi;
            out.push(arms(m.clone(), &mut |v| {
                if rest.is_empty() { return vec![Stmt::Expr(v, semi)]; }
                let mut b = vec![Stmt::Expr(v, Some(Default::default()))];
                b.extend(rest.iter().cloned());
                b
            })?);
        }
        _ => return None,
    }
    Some(out)
}

/// moves what follows a match into the arm that does not return; there is at most one such arm
fn arms(mut m: ExprMatch, rest: &mut dyn FnMut(Expr) -> Vec<Stmt>) -> Option<Stmt> {
    if returns(&m.expr) { return None; }
    let mut open = 0;
    for a in &mut m.arms {
        if matches!(&a.guard, Some(g) if returns(&g.1)) { return None; }
        let b = match &*a.body {
            Expr::Return(_) => unreturn(&[Stmt::Expr((*a.body).clone(), None)])?,
            Expr::Block(b) if diverges(&b.block.stmts) => unreturn(&b.block.stmts)?,
            v => {
                if returns(v) { return None; }
                open += 1;
                unreturn(&rest(v.clone()))?
            }
        };
        a.body = Box::new(parse_quote!({ #(#b)* }));
        a.comma.get_or_insert_with(Default::default);
    }
    if open > 1 { return None; }
    Some(Stmt::Expr(Expr::Match(m), None))
}

/// marks the calls whose value is the value of the function
pub fn mark_tail(b: &mut Block) {
    struct R;
    impl VisitMut for R {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Closure(_) = e { return; }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Return(r) = e { if let Some(x) = r.expr.as_mut() { mark(x); } }
        }
    }
    fn mark(e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => { let x = e.clone(); *e = parse_quote!(vx_tail(#x)); }
            Expr::Block(b) if b.label.is_none() => last(&mut b.block),
            Expr::If(i) => { last(&mut i.then_branch); if let Some((_, x)) = i.else_branch.as_mut() { mark(x); } }
            Expr::Match(m) => for a in &mut m.arms { mark(&mut a.body); },
            _ => {}
        }
    }
    fn last(b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { mark(e); }
    }
    R.visit_block_mut(b);
    last(b);
}

/// functions whose error type is io::Error: `?` needs no conversion of the error
pub fn io_result(o: &ReturnType) -> bool {
    if let ReturnType::Type(_, t) = o {
        let t: String = t.to_token_stream().to_string().split_whitespace().collect();
        return t.starts_with("io::Result<") || t.starts_with("std::io::Result<") || (t.starts_with("Result<") && t.ends_with("io::Error>"));
    }
    false
}

/// `x?` written out
pub fn untry(b: &mut Block) {
    struct T;
    impl VisitMut for T {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Closure(_) = e { return; }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Try(t) = e {
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) });
            }
        }
    }
    T.visit_block_mut(b);
}

fn unty(p: &Pat) -> Pat {
    match p { Pat::Type(t) => (*t.pat).clone(), _ => p.clone() }
}

fn bind(pat: &Pat, elem: Expr) -> Vec<Stmt> {
    match pat {
        Pat::Reference(r) => {
            let p = &r.pat;
            let Expr::Reference(er) = elem else { unreachable!() };
            let v = er.expr;
            vec![parse_quote!(let #p = #v;)]
        }
        Pat::Tuple(t) => {
            // by-reference destructuring of a tuple element
            let Expr::Reference(er) = elem else { unreachable!() };
            let v = er.expr;
            let m = er.mutability;
            t.elems.iter().enumerate().map(|(k, p)| {
                let ix = Index::from(k);
                parse_quote!(let #p = &#m #v.#ix;)
            }).collect()
        }
        p => vec![parse_quote!(let #p = #elem;)],
    }
}

fn strip_lt(mut t: Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    L.visit_type_mut(&mut t);
    t
}

fn calls(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> visit::Visit<'a> for C {
        fn visit_expr_call(&mut self, _: &'a ExprCall) { self.0 = true; }
        fn visit_expr_method_call(&mut self, _: &'a ExprMethodCall) { self.0 = true; }
    }
    let mut c = C(false);
    visit::Visit::visit_expr(&mut c, e);
    c.0
}

/// Condition under which a pattern without bindings matches.
fn pat_cond(p: &Pat, v: &Ident) -> Option<Option<Expr>> {
    Some(match p {
        Pat::Wild(_) => None,
        Pat::Lit(l) => Some(parse_quote!((#v == #l))),
        Pat::Path(l) => Some(parse_quote!((#v == #l))),
        Pat::Paren(x) => pat_cond(&x.pat, v)?,
        Pat::Range(r) => {
            let lo = r.start.as_ref()?;
            let hi = r.end.as_ref()?;
            Some(if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!((#lo <= #v && #v <= #hi)) } else { parse_quote!((#lo <= #v && #v < #hi)) })
        }
        Pat::Or(o) => {
            let mut all: Option<Expr> = None;
            for c in &o.cases {
                let c = pat_cond(c, v)??;
                all = Some(match all { None => c, Some(a) => parse_quote!((#a || #c)) });
            }
            all
        }
        _ => return None,
    })
}

/// `match` over plain values whose guards call functions, as a chain of `if`.
fn guarded_match(m: &ExprMatch) -> Option<Expr> {
    let v = format_ident!("vx_match");
    let mut tail: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let c = pat_cond(&a.pat, &v)?;
        let b = &a.body;
        let c = match (c, &a.guard) {
            (None, None) => None,
            (None, Some(g)) => { let g = &g.1; Some(parse_quote!(#g)) }
            (Some(c), None) => Some(c),
            (Some(c), Some(g)) => { let g = &g.1; Some(parse_quote!(#c && #g)) }
        };
        tail = Some(match (c, tail) {
            (None, _) => parse_quote!({ #b }),
            (Some::<Expr>(c), Some(t)) => parse_quote!(if #c { #b } else { #t }),
            _ => return None,
        });
    }
    let t = tail?;
    let x = &m.expr;
    Some(parse_quote!({ let #v = #x; #t }))
}

struct RenameSelf(Ident);
impl VisitMut for RenameSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") { let n = &self.0; *e = parse_quote!(#n); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mac = m.mac.clone();
            if let Some(e) = self.macro_expr(&mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(e, Some(semi.unwrap_or_default()));
                return;
            }
        }
        // constant of a function body
        if let Stmt::Item(Item::Const(c)) = s {
            let (id, ty, x) = (&c.ident, &c.ty, self.expr((*c.expr).clone()));
            *s = parse_quote!(let #id: #ty = #x;);
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut places = vec![];
            if let Stmt::Local(l) = &s {
                if let Some(n) = pat_name(&l.pat) { places.push(format!("after let {}", n)); }
            }
            if let Stmt::Expr(e, Some(_)) = &s {
                if let Some(n) = call_name(e) { places.push(format!("after call {}", n)); }
            }
            if let Stmt::Expr(Expr::Continue(_), _) = &s {
                let p = format!("continue {}", self.continues);
                self.continues += 1;
                if self.has_hint(&p) { out.push(hint(&p)); }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            for p in places {
                if !self.placed.contains(&p) && self.has_hint(&p) { out.push(hint(&p)); }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = std::mem::take(&mut self.tail);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_tail")) {
                let mut x = c.args[0].clone();
                self.tail = true;
                self.visit_expr_mut(&mut x);
                self.tail = false;
                *e = x;
                return;
            }
        }
        match e {
            Expr::Return(r) if self.exits && self.depth == 0 => {
                let h = hint("exit");
                *e = match r.expr.take() {
                    Some(mut x) => {
                        self.visit_expr_mut(&mut x);
                        let t = &self.ret;
                        parse_quote!({ let vx_ret: #t = #x; #h return vx_ret; })
                    }
                    None => parse_quote!({ #h return; }),
                };
                return;
            }
            Expr::ForLoop(f) => {
                if let Some(src) = self.source(&f.expr) {
                    let f = f.clone();
                    *e = self.build_loop(src, &f.pat, f.label, f.body.stmts, vec![], None, vec![]);
                    return;
                }
                // plain variable: iterate by reference
                if is_place(&f.expr) {
                    let f = f.clone();
                    let src = Source { kind: Kind::Ref((*f.expr).clone()), enumerate: false, rev: false };
                    *e = self.build_loop(src, &f.pat, f.label, f.body.stmts, vec![], None, vec![]);
                    return;
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| calls(&g.1))) => {
                if let Some(x) = guarded_match(m) {
                    *e = self.expr(x);
                    return;
                }
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                let nl: LitInt = LitInt::new(&n.to_string(), Span::call_site());
                self.visit_expr_mut(&mut w.cond);
                let mut stmts: Vec<Stmt> = vec![parse_quote!(vx_loop!(#nl);)];
                if self.has_hint(&format!("loop {} entry", n)) { stmts.push(hint(&format!("loop {} entry", n))); }
                self.visit_block_mut(&mut w.body);
                stmts.append(&mut w.body.stmts);
                if self.has_hint(&format!("loop {} exit", n)) {
                    if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() { *semi = Some(Default::default()); }
                    stmts.push(hint(&format!("loop {} exit", n)));
                }
                w.body.stmts = stmts;
                let before = self.has_hint(&format!("before loop {}", n));
                let after = self.has_hint(&format!("after loop {}", n));
                if before || after {
                    let mut st: Vec<Stmt> = vec![];
                    if before { st.push(hint(&format!("before loop {}", n))); }
                    let w = w.clone();
                    st.push(parse_quote!(#w));
                    if after { st.push(hint(&format!("after loop {}", n))); }
                    *e = parse_quote!({ #(#st)* });
                }
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                let nl: LitInt = LitInt::new(&n.to_string(), Span::call_site());
                let mut stmts: Vec<Stmt> = vec![parse_quote!(vx_loop!(#nl);)];
                if self.has_hint(&format!("loop {} entry", n)) { stmts.push(hint(&format!("loop {} entry", n))); }
                self.visit_block_mut(&mut w.body);
                stmts.append(&mut w.body.stmts);
                if self.has_hint(&format!("loop {} exit", n)) {
                    if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() { *semi = Some(Default::default()); }
                    stmts.push(hint(&format!("loop {} exit", n)));
                }
                w.body.stmts = stmts;
                let after = self.has_hint(&format!("after loop {}", n));
                if after {
                    let w = w.clone();
                    let h = hint(&format!("after loop {}", n));
                    *e = parse_quote!({ #w #h });
                }
                return;
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.chain(&m.clone()) { *e = x; return; }
                let name = m.method.to_string();
                if MUT_METHODS.contains(&name.as_str()) {
                    if let Expr::Index(ix) = strip_paren(&m.receiver) {
                        if let Some((lo, hi)) = range_parts(&ix.index) {
                            let base = self.expr((*ix.expr).clone());
                            let lo = lo.map(|x| self.expr(x));
                            let hi = hi.map(|x| self.expr(x));
                            if let (Some(a), None, "set_u16" | "set_u24" | "set_u32", 1) = (&lo, &hi, name.as_str(), m.args.len()) {
                                let f = format_ident!("vx_{}", name);
                                let v = self.expr(m.args[0].clone());
                                *e = parse_quote!(#base.#f(#a, #v));
                                return;
                            }
                            *m.receiver = mut_index(&base, lo, hi);
                            for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                            return;
                        }
                    }
                }
                if name == "resize" && m.args.len() == 2 { m.method = format_ident!("vx_resize"); }
                if name == "as_ref" && m.args.is_empty() {
                    if let Expr::Path(p) = strip_paren(&m.receiver) {
                        if let Some(id) = p.path.get_ident() {
                            if self.asref.contains(&id.to_string()) {
                                *e = (*m.receiver).clone();
                                return;
                            }
                        }
                    }
                }
                if (name == "downcast_ref" || name == "downcast_mut") && m.args.is_empty() {
                    if let Expr::MethodCall(a) = strip_paren(&m.receiver) {
                        if a.method == "as_any_ref" || a.method == "as_any_mut" {
                            let base = self.expr((*a.receiver).clone());
                            let t = &m.turbofish;
                            *e = if name == "downcast_ref" { parse_quote!(vx_downcast_ref #t (&#base)) } else { parse_quote!(vx_downcast_mut #t (&mut #base)) };
                            return;
                        }
                    }
                }
                // x.last_mut().unwrap() and the like: the unwrap is a precondition
                if (name == "unwrap" || name == "expect") && m.args.len() <= 1 {
                    if let Expr::MethodCall(a) = strip_paren(&m.receiver) {
                        let f = a.method.to_string();
                        if ["first", "last", "first_mut", "last_mut"].contains(&f.as_str()) && a.args.is_empty() && is_place(&a.receiver) {
                            let base = self.expr((*a.receiver).clone());
                            let v = format_ident!("vx_{}", f);
                            *e = if f.ends_with("_mut") { parse_quote!(#v(&mut #base)) } else { parse_quote!(#v(&#base)) };
                            return;
                        }
                    }
                }
                if name == "drain" && m.args.len() == 1 {
                    if let Some((lo, hi)) = range_parts(&m.args[0]) {
                        let base = self.expr((*m.receiver).clone());
                        let lo = lo.unwrap_or(parse_quote!(0));
                        let lo = self.expr(lo);
                        let hi = match hi { Some(h) => self.expr(h), None => parse_quote!(#base.len()) };
                        *e = parse_quote!(vx_drain(&mut #base, #lo, #hi));
                        return;
                    }
                }
                if let Some(h) = self.find_helper(&name, true) {
                    let m2 = m.clone();
                    let args: Vec<Expr> = m2.args.iter().cloned().collect();
                    self.tail = tail;
                    if let Some(x) = self.inline(h, Some((*m2.receiver).clone()), args) { *e = x; return; }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if let Some((lo, hi)) = range_parts(&ix.index) {
                        let base = self.expr((*ix.expr).clone());
                        let lo = lo.map(|x| self.expr(x));
                        let hi = hi.map(|x| self.expr(x));
                        *e = mut_index(&base, lo, hi);
                        return;
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_array(&b.left) || is_array(&b.right)) => {
                let side = |x: &Expr| -> Expr { match strip_paren(x) { Expr::Reference(_) => x.clone(), x => parse_quote!(&#x) } };
                let (l, r) = (self.expr(side(&b.left)), self.expr(side(&b.right)));
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_same(#l, #r)) } else { parse_quote!(!vx_same(#l, #r)) };
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    let sj = s.join("::");
                    if ["std::cmp::min", "cmp::min", "core::cmp::min", "std::cmp::max", "cmp::max", "core::cmp::max"].contains(&sj.as_str()) && c.args.len() == 2 {
                        let a = self.expr(c.args[0].clone());
                        let b = self.expr(c.args[1].clone());
                        *e = if sj.ends_with("min") { parse_quote!((#a).vx_min(#b)) } else { parse_quote!((#a).vx_max(#b)) };
                        return;
                    }
                    if s.len() == 2 && ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&s[0].as_str()) && ["max_value", "min_value"].contains(&s[1].as_str()) && c.args.is_empty() {
                        let (t, m) = (format_ident!("{}", s[0]), format_ident!("{}", &s[1][.. 3].to_uppercase()));
                        *e = parse_quote!(#t::#m);
                        return;
                    }
                    if let (2, [t, "from_be_bytes"], Some(Expr::Array(a))) = (s.len(), &[s[0].as_str(), s[s.len() - 1].as_str()], c.args.first()) {
                        let n = match *t { "u16" => 2, "u32" => 4, "u64" => 8, _ => 0 };
                        if n > 0 && a.elems.len() == n {
                            let t = format_ident!("{}", t);
                            let mut x: Option<Expr> = None;
                            for (i, b) in a.elems.clone().into_iter().enumerate() {
                                let b = self.expr(b);
                                let k = LitInt::new(&format!("{}", 8 * (n - 1 - i)), Span::call_site());
                                let y: Expr = if i + 1 == n { parse_quote!((#b as #t)) } else { parse_quote!(((#b as #t) << #k)) };
                                x = Some(match x { None => y, Some(x) => parse_quote!((#x | #y)) });
                            }
                            *e = x.unwrap();
                            return;
                        }
                    }
                    if sj.ends_with("char::from_u32_unchecked") && c.args.len() == 1 {
                        let a = self.expr(c.args[0].clone());
                        *e = parse_quote!(vx_char(#a));
                        return;
                    }
                    if sj == "String::from_utf8_lossy" && c.args.len() == 1 {
                        let a = self.expr(c.args[0].clone());
                        *e = parse_quote!(vx_utf8_lossy(#a));
                        return;
                    }
                    if sj == "Vec::from" && c.args.len() == 1 {
                        let a = self.expr(c.args[0].clone());
                        *e = parse_quote!(vx_vec_from(#a));
                        return;
                    }
                    let last = s.last().cloned().unwrap_or_default();
                    if let Some(h) = self.find_helper(&last, false) {
                        let ok = match (&h.owner, s.len()) {
                            (None, 1) => true,
                            (None, _) => s[s.len() - 2].chars().next().map(|c| c.is_lowercase()).unwrap_or(false),
                            (Some(o), n) if n >= 2 => s[n - 2] == "Self" || s[n - 2] == *o,
                            _ => false,
                        };
                        if ok {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            self.tail = tail;
                            if let Some(x) = self.inline(h, None, args) { *e = x; return; }
                        }
                    }
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v: Vec<LitInt> = b.value().iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site())).collect();
                *e = parse_quote!(&[#(#v),*]);
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(x) = self.macro_expr(&mac) { *e = x; return; }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// array literal or part of a slice
fn is_array(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Array(_) => true,
        Expr::Reference(r) => is_array(&r.expr),
        Expr::Index(ix) => range_parts(&ix.index).is_some(),
        _ => false,
    }
}

fn pat_name(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|s| s.ident.to_string()) } else { None },
        Expr::Assign(a) => call_name(&a.right),
        _ => None,
    }
}

impl<'a> Lower<'a> {
    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        match name.as_str() {
            "debug_assert" | "assert" => {
                let a = self.expr(args.ok()?.first()?.clone());
                Some(parse_quote!(vx_assert(#a)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let args = args.ok()?;
                let a = self.expr(args[0].clone());
                let b = self.expr(args[1].clone());
                Some(parse_quote!(vx_assert(#a == #b)))
            }
            "debug_assert_ne" | "assert_ne" => {
                let args = args.ok()?;
                let a = self.expr(args[0].clone());
                let b = self.expr(args[1].clone());
                Some(parse_quote!(vx_assert(#a != #b)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
            "vec" => {
                // lower the elements
                let mut args = args.ok()?;
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if args.len() == 1 {
                    let a = &args[0];
                    return Some(parse_quote!(vx_vec1(#a)));
                }
                Some(parse_quote!(vec![#args]))
            }
            "set_bits" => {
                let mut args = args.ok()?;
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                Some(parse_quote!(set_bits!(#args)))
            }
            _ => None,
        }
    }
}

pub fn toks<T: ToTokens>(t: &T) -> TokenStream { quote!(#t) }
