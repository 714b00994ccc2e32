//! Object identifiers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Oid<'a>(pub &'a str);
impl Oid<'_> {
    /// The digits and dots only.
    pub fn text(&self) -> String {
        self.0.chars().filter(|c| c.is_ascii_digit() || *c == '.').collect()
    }
}
pub mod oid {
    pub use super::Oid;
}
#[macro_export]
macro_rules! oid {
    ($($t:tt)*) => { $crate::Oid(stringify!($($t)*)) };
}
