use crate::fw::Prop;
pub mod code;
pub mod diag;
pub mod fit;
pub mod dir;
pub mod mem;
pub mod mods;
pub mod rules;
pub mod big;
pub mod sem;
pub mod syntax;
pub mod lots;
pub mod text;
pub mod threads;

pub static ALL: &[&Prop] = &[&text::C01, &text::C02, &text::C03, &text::C05, &syntax::S01, &syntax::P02, &syntax::P03, &syntax::P04, &syntax::P05, &sem::K04, &sem::K05, &sem::K06, &sem::K07, &sem::K08, &sem::K09, &sem::K11, &code::K02, &code::K03, &code::K13, &code::B01, &rules::K01, &rules::K14, &big::K12, &mods::K10, &mods::L01, &mem::M01, &threads::M02, &diag::C04, &diag::P01];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
