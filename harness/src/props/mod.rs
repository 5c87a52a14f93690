//! One module per property.
use crate::engine::{Property, Tier};

pub mod kafka;
pub mod net;
pub mod stage;
pub mod util;
pub mod web;

macro_rules! props {
    ($($m:ident),*) => {
        $(mod $m;)*
        pub fn all() -> Vec<Property> {
            vec![$($m::property()),*]
        }
    };
}
props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c26, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c27, c28, c29, c30);

pub fn find(id: &str) -> Option<Property> {
    all().into_iter().find(|p| p.id == id)
}

/// Kept so that scenario lists can depend on the tier.
#[allow(dead_code)]
pub type T = Tier;
