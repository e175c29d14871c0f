//! One module per property.

use crate::engine::Prop;

pub mod c01;
pub mod c02;
pub mod c02s;
pub mod c02x;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c24f;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;

pub static ALL: &[Prop] = &[
    c01::PROP, c02::PROP, c02x::PROP, c02s::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c16::LONG, c17::PROP, c18::PROP, c19::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP, c24::PROP, c24f::PROP, c25::PROP, c26::PROP, c27::PROP, c28::PROP, c29::PROP, c29::FAR,
];
