#![feature(formatting_options)]
#![allow(clippy::missing_safety_doc)]
pub mod bulk;
pub mod caps;
pub mod conc;
pub mod guards;
pub mod keyid;
pub mod panics;
pub mod rt;
pub mod scn;
pub mod seq;
pub mod types;
pub mod set;
