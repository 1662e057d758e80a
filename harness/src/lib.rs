//! Verification harnesses. Every `s_*` function is a sequential harness which is executed symbolically
//! on all feasible paths; every `p_*` family (`_setup`, `_t1`.., `_final`) is a concurrent harness of which
//! all interleavings and C11 weak memory behaviours are encoded. See /verif/DESIGN.md.
#![allow(dead_code, unused_imports, unused_macros, unused_unsafe)]
#[macro_use]
pub mod rt;

#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c18"))]
mod inflight;
mod big;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
