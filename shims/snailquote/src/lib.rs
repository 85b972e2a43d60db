//! Stand-in for `snailquote` escape/unescape (single quoting when needed).
pub fn escape(s: &str) -> std::borrow::Cow<'_, str> {
  if !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_./=:@%+,".contains(c)) { s.into() }
  else {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), '\r' => r.push_str("\\r"), c => r.push(c) } }
    r.push('"'); r.into()
  }
}
#[derive(Debug)]
pub struct UnescapeError;
impl std::fmt::Display for UnescapeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "invalid escape") } }
impl std::error::Error for UnescapeError {}
pub fn unescape(s: &str) -> Result<String, UnescapeError> {
  let mut out = String::new();
  let mut q: Option<char> = None;
  let mut it = s.chars();
  while let Some(c) = it.next() {
    match (q, c) {
      (None, '\'') | (None, '"') => q = Some(c),
      (Some(x), c) if x == c => q = None,
      (Some('\''), c) => out.push(c),
      (_, '\\') => match it.next() {
        Some('n') => out.push('\n'), Some('t') => out.push('\t'), Some('r') => out.push('\r'),
        Some(c) => out.push(c), None => return Err(UnescapeError) },
      (_, c) => out.push(c)
    }
  }
  if q.is_some() { Err(UnescapeError) } else { Ok(out) }
}
