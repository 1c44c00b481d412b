//! `[< a b >]` inside `paste!` becomes the identifier `ab`; everything else
//! passes through.

use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn paste(input: TokenStream) -> TokenStream {
    walk(input)
}

fn joined(inner: TokenStream) -> Option<TokenTree> {
    let toks: Vec<TokenTree> = inner.into_iter().collect();
    let is = |t: &TokenTree, c: char| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
    if toks.len() < 3 || !is(&toks[0], '<') || !is(&toks[toks.len() - 1], '>') {
        return None;
    }
    let mut name = String::new();
    let mut span = Span::call_site();
    for (i, t) in toks[1..toks.len() - 1].iter().enumerate() {
        if i == 0 {
            span = t.span();
        }
        flat(t, &mut name);
    }
    Some(TokenTree::Ident(Ident::new(&name, span)))
}

fn flat(t: &TokenTree, name: &mut String) {
    match t {
        TokenTree::Group(g) => g.stream().into_iter().for_each(|t| flat(&t, name)),
        t => name.push_str(t.to_string().trim_matches('"')),
    }
}

fn walk(input: TokenStream) -> TokenStream {
    input
        .into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket
                    && let Some(t) = joined(g.stream())
                {
                    return t;
                }
                let mut n = Group::new(g.delimiter(), walk(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
