#![allow(clippy::type_complexity, clippy::new_without_default)]
//! Generated-history checks of xecs. See /verif/DESIGN.md.
pub mod alloc;
pub mod conc;
pub mod diffs;
pub mod more;
pub mod driver;
pub mod engine;
pub mod gen;
pub mod locks;
pub mod probes;
pub mod props;
pub mod row;
pub mod shapes;
pub mod typed;
pub mod types;
