#[cfg(feature = "core")]
pub mod gspec;
pub mod tool;
#[cfg(feature = "core")]
pub mod lrpc;
#[cfg(feature = "core")]
pub mod refr;
#[macro_use]
pub mod run;
pub mod sym;
#[cfg(feature = "core")]
pub mod demo;
#[cfg(feature = "wopc")]
pub mod wcode;
#[cfg(feature = "wopc")]
pub mod we2e;
#[cfg(feature = "wopc")]
pub mod wgen;
#[cfg(feature = "wopc")]
pub mod wopc;
#[cfg(feature = "wopc")]
pub mod wref;
