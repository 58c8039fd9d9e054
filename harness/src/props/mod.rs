use crate::mon::Prop;

mod builds;
pub mod convert;
mod growth;
pub mod layout;
mod nav;
pub mod num;
pub mod parsing;
pub mod pure;
mod roundtrip;
mod says;
pub mod serdes;
mod untyped;
mod values;
mod verbatim;

pub static ALL: &[&Prop] = &[
    &roundtrip::C01,
    &roundtrip::C02,
    &roundtrip::C03,
    &parsing::C04,
    &growth::C05,
    &parsing::C06,
    &parsing::C07,
    &parsing::C08,
    &parsing::C09,
    &verbatim::C10,
    &serdes::C11,
    &serdes::C12,
    &serdes::C13,
    &serdes::C14,
    &serdes::C15,
    &convert::C16,
    &convert::C17,
    &num::C18,
    &num::C19,
    &num::C20,
    &num::C21,
    &values::C22,
    &values::C23,
    &values::C24,
    &values::C25,
    &values::C26,
    &nav::C27,
    &layout::C28,
    &layout::C29,
    &pure::C30,
    &pure::C31,
    &verbatim::C32,
    &layout::C33,
    &says::C34,
    &says::C35,
    &says::C36,
    &says::C37,
    &builds::C38,
    &untyped::C39,
];

pub fn get(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}
