//! Independent description of x86-64, used to judge what monoasm emits.
//! Nothing in this crate depends on monoasm.
pub mod decode;
pub mod inst;
pub mod interp;
pub mod spec;
