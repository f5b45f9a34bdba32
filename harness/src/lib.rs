#![allow(dead_code)]
pub mod gen;
pub mod sym;
#[cfg(feature = "p01")]
mod p01;
#[cfg(feature = "p02")]
mod p02;
#[cfg(feature = "p03")]
mod p03;
#[cfg(feature = "p04")]
mod p04;
#[cfg(feature = "p05")]
mod p05;
#[cfg(feature = "p06")]
mod p06;
#[cfg(feature = "p07")]
mod p07;
#[cfg(feature = "p08")]
mod p08;
#[cfg(feature = "t")]
pub mod tgen;
#[cfg(feature = "p09")]
mod p09;
#[cfg(feature = "p24")]
mod p24;
#[cfg(feature = "p11")]
mod p11;
#[cfg(feature = "p12")]
mod p12;
#[cfg(feature = "p10")]
mod p10;
#[cfg(feature = "p25")]
mod p25;
#[cfg(feature = "p14")]
mod p14;
#[cfg(feature = "p15")]
mod p15;
#[cfg(feature = "p16")]
mod p16;
#[cfg(feature = "p17")]
mod p17;
#[cfg(feature = "p18")]
mod p18;
#[cfg(feature = "p26")]
mod p26;
#[cfg(feature = "p27")]
mod p27;
#[cfg(feature = "p23")]
mod p23;
#[cfg(feature = "p13")]
mod p13;
#[cfg(feature = "p19")]
mod p19;
#[cfg(feature = "p20")]
mod p20;
#[cfg(all(feature = "p22", feature = "par"))]
mod p22;
#[cfg(feature = "p21")]
mod p21;
#[cfg(feature = "blas")]
mod cblas_ref;
#[cfg(feature = "p29")]
mod p29;
#[cfg(feature = "p30")]
mod p30;
