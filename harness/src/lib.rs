pub mod c01;
pub mod c04;
#[cfg(feature = "full")]
pub mod c05;
#[cfg(feature = "full")]
pub mod c06;
#[cfg(feature = "full")]
pub mod c02;
#[cfg(feature = "full")]
pub mod c14;
pub mod c07;
#[cfg(feature = "full")]
pub mod c11;
pub mod c12;
#[cfg(feature = "full")]
pub mod c08;
#[cfg(feature = "full")]
pub mod c09;
#[cfg(feature = "full")]
pub mod c10;
#[cfg(feature = "full")]
pub mod c13;
#[cfg(feature = "full")]
pub mod c24;
#[cfg(feature = "full")]
pub mod c25;
#[cfg(feature = "full")]
pub mod c21;
#[cfg(feature = "full")]
pub mod c23;
pub mod models;
pub mod spec;
#[cfg(feature = "full")]
pub mod c26;
#[cfg(feature = "full")]
pub mod c16;
#[cfg(feature = "full")]
pub mod c20;
#[cfg(feature = "full")]
pub mod c17;
#[cfg(feature = "web")]
pub mod web;
#[cfg(feature = "web")]
#[path = "../../front/frames.rs"]
pub mod frames;
