//! Token printer: one statement per line, loop annotations moved in front of the body.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Anno<'a> {
    /// returns text for (kind, arg)
    pub get: &'a dyn Fn(&str, &str) -> String,
}

fn is_anno(tts: &[TokenTree], i: usize, name: &str) -> Option<String> {
    if let (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) =
        (tts.get(i), tts.get(i + 1), tts.get(i + 2))
    {
        if a == name && b.as_char() == '!' {
            return Some(g.stream().to_string().trim_matches('"').to_string());
        }
    }
    None
}

pub fn print(ts: TokenStream, an: &Anno) -> String {
    let mut out = String::new();
    stream(ts, &mut out, 0, an, true);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') { out.pop(); }
    if !out.ends_with('\n') { out.push('\n'); }
    for _ in 0..ind { out.push_str("    "); }
}

fn stream(ts: TokenStream, out: &mut String, ind: usize, an: &Anno, stmts: bool) {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < tts.len() {
        if let Some(place) = is_anno(&tts, i, "vx_hint") {
            let text = (an.get)("hint", &place);
            nl(out, ind);
            out.push_str(&text);
            nl(out, ind);
            i += 3;
            if let Some(TokenTree::Punct(p)) = tts.get(i) {
                if p.as_char() == ';' { i += 1; }
            }
            continue;
        }
        match &tts[i] {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut rest = g.stream();
                    let mut is_loop = false;
                    if let Some(n) = is_anno(&inner, 0, "vx_loop") {
                        let text = (an.get)("loop", &n);
                        nl(out, ind + 1);
                        out.push_str(&text);
                        nl(out, ind);
                        rest = inner.into_iter().skip(4).collect();
                        is_loop = true;
                    }
                    if rest.is_empty() {
                        out.push_str("{ }");
                    } else {
                        out.push('{');
                        nl(out, ind + 1);
                        stream(rest, out, ind + 1, an, true);
                        nl(out, ind);
                        out.push('}');
                    }
                    // a block right behind a loop reads like a second body
                    if is_loop && matches!(tts.get(i + 1), Some(TokenTree::Group(x)) if x.delimiter() == Delimiter::Brace) { out.push(';'); }
                    let next_joins = matches!(tts.get(i + 1),
                        Some(TokenTree::Ident(id)) if *id == "else" || *id == "as")
                        || matches!(tts.get(i + 1), Some(TokenTree::Punct(_)));
                    if stmts && !next_joins { nl(out, ind); } else { out.push(' '); }
                }
                d => {
                    let (o, c) = match d {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push_str(o);
                    stream(g.stream(), out, ind + 1, an, false);
                    while out.ends_with(' ') { out.pop(); }
                    out.push_str(c);
                    out.push(' ');
                }
            },
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == Spacing::Alone { out.push(' '); }
                if p.as_char() == ';' && stmts { nl(out, ind); }
                if p.as_char() == ',' && stmts { nl(out, ind); }
            }
            TokenTree::Ident(id) => { out.push_str(&id.to_string()); out.push(' '); }
            TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); }
        }
        i += 1;
    }
}
