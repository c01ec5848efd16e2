//! Stand-in for the part of diman (tehforsch's fork) that subsweep uses: compile-time dimensions
//! over f64, DVec2 and DVec3.
pub use diman_macros::dimension;
pub use diman_macros::unit_system;

pub type Quotient<A, B> = <A as std::ops::Div<B>>::Output;
pub type Product<A, B> = <A as std::ops::Mul<B>>::Output;
