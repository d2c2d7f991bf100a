use crate::engine::Prop;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;

pub use c31::finding as c31_finding;

pub const ALL: &[Prop] = &[c01::C01, c02::C02, c03::C03, c04::C04, c05::C05, c06::C06, c07::C07, c08::C08, c09::C09, c10::C10, c11::C11, c12::C12, c13::C13, c14::C14, c15::C15, c16::C16, c17::C17, c18::C18, c19::C19, c20::C20, c21::C21, c22::C22, c23::C23, c24::C24, c25::C25, c26::C26, c27::C27, c28::C28, c29::C29, c30::C30, c31::C31, c32::C32, c33::C33, c34::C34];
