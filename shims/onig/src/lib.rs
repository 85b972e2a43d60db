//! Stand-in for the `onig` crate (not available offline), over fancy-regex.
use std::borrow::Cow;

pub trait EncodedChars {}
impl EncodedChars for str {}

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for Error {}
impl Error { pub fn description(&self) -> &str { &self.0 } }

#[derive(Debug, Clone)]
pub struct Regex(fancy_regex::Regex);

pub struct Captures<'t>(fancy_regex::Captures<'t>);

impl<'t> Captures<'t> {
  pub fn at(&self, i: usize) -> Option<&'t str> { self.0.get(i).map(|m| m.as_str()) }
  pub fn len(&self) -> usize { self.0.len() }
}

impl Regex {
  pub fn new(re: &str) -> Result<Regex, Error> {
    fancy_regex::Regex::new(re).map(Regex).map_err(|e| Error(e.to_string()))
  }
  /// onig's is_match (SEARCH_OPTION_WHOLE_STRING): the whole of the text has to match
  pub fn is_match(&self, text: &str) -> bool {
    let anchored = fancy_regex::Regex::new(&format!(r"\A(?:{})\z", self.0.as_str()));
    anchored.ok().and_then(|r| r.find(text).ok().flatten()).map(|m| m.end() == text.len()).unwrap_or(false)
  }
  pub fn find(&self, text: &str) -> Option<(usize, usize)> {
    self.0.find(text).ok().flatten().map(|m| (m.start(), m.end()))
  }
  pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
    self.0.captures(text).ok().flatten().map(Captures)
  }
  pub fn replace<'t, F: FnMut(&Captures<'_>) -> String>(&self, text: &'t str, mut f: F) -> String {
    match self.0.captures(text).ok().flatten() {
      None => text.to_string(),
      Some(c) => {
        let (s, e) = { let m = c.get(0).unwrap(); (m.start(), m.end()) };
        let r = f(&Captures(c));
        format!("{}{}{}", &text[..s], r, &text[e..])
      }
    }
  }
  pub fn as_cow(&self) -> Cow<'_, str> { Cow::Borrowed(self.0.as_str()) }
}
