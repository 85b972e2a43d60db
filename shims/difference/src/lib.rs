//! Stand-in for `difference`: only used to display mismatches. Reports a removal then an addition.
pub enum Difference { Same(String), Add(String), Rem(String) }
pub struct Changeset { pub diffs: Vec<Difference>, pub split: String, pub distance: i32 }
impl Changeset {
  pub fn new(a: &str, b: &str, split: &str) -> Changeset {
    let diffs = if a == b { vec![Difference::Same(a.to_string())] } else { vec![Difference::Rem(a.to_string()), Difference::Add(b.to_string())] };
    Changeset { distance: if a == b { 0 } else { 1 }, diffs, split: split.to_string() }
  }
}
