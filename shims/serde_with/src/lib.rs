//! Stand-in for `serde_with` (not available offline): `skip_serializing_none` puts
//! `#[serde(skip_serializing_if = "Option::is_none")]` on every field whose type is an Option.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn skip_serializing_none(_: TokenStream, item: TokenStream) -> TokenStream {
  let mut all: Vec<TokenTree> = item.into_iter().collect();
  if let Some(TokenTree::Group(g)) = all.last() {
    if g.delimiter() == Delimiter::Brace {
      let fields = mark(g.stream());
      let mut g2 = Group::new(Delimiter::Brace, fields);
      g2.set_span(g.span());
      let n = all.len();
      all[n - 1] = TokenTree::Group(g2);
    }
  }
  all.into_iter().collect()
}

/// fields are separated by commas outside angle brackets
fn mark(fields: TokenStream) -> TokenStream {
  let mut out = TokenStream::new();
  let mut field: Vec<TokenTree> = vec![];
  let mut depth = 0i32;
  for t in fields {
    if let TokenTree::Punct(p) = &t {
      match p.as_char() { '<' => depth += 1, '>' => depth -= 1, _ => () }
      if p.as_char() == ',' && depth == 0 {
        flush(&mut out, &mut field);
        out.extend([t]);
        continue;
      }
    }
    field.push(t);
  }
  flush(&mut out, &mut field);
  out
}

fn flush(out: &mut TokenStream, field: &mut Vec<TokenTree>) {
  // name : Option ...
  let option = field.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))
    .and_then(|i| field.get(i + 1)).map(|t| t.to_string() == "Option").unwrap_or(false);
  if option {
    let attr: TokenStream = "#[serde(skip_serializing_if = \"Option::is_none\")]".parse().unwrap();
    out.extend(attr);
  }
  out.extend(field.drain(..));
}
