//! Minimal stand-in for diman: quantities whose dimension is a const parameter.
pub use diman_macros::{dimension, unit_system};

pub mod __reexports {
    pub use glam;
    pub use hdf5;
    pub use mpi;
    pub use serde;
}

pub type Product<A, B> = <A as std::ops::Mul<B>>::Output;
pub type Quotient<A, B> = <A as std::ops::Div<B>>::Output;

/// Splits "1.0 km" into the numbers and the text of the unit.
pub fn split_text(s: &str) -> Option<(Vec<f64>, String)> {
    let s = s.trim();
    if let Some(rest) = s.strip_prefix('(') {
        let (inner, unit) = rest.split_once(')')?;
        let numbers: Result<Vec<f64>, _> = inner
            .split(|c: char| c.is_whitespace() || c == ',')
            .filter(|x| !x.is_empty())
            .map(|x| x.parse())
            .collect();
        return Some((numbers.ok()?, unit.trim().to_string()));
    }
    let mut it = s.splitn(2, char::is_whitespace);
    let n = it.next()?.parse().ok()?;
    Some((vec![n], it.next().unwrap_or("").trim().to_string()))
}
