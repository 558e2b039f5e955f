pub mod aes;
pub mod cbc;
pub mod constant;
pub mod effects;
pub mod errors;
pub mod failed;
pub mod hash;
pub mod kdf;
pub mod memory;
pub mod platform;
pub mod safety;
pub mod salsa;
pub mod system;
pub mod timing;
pub mod work;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        hash::c01(),
        hash::c02(),
        hash::c03(),
        kdf::c04(),
        kdf::c05(),
        salsa::c06(),
        kdf::c07(),
        kdf::c08(),
        aes::c09(),
        aes::c10(),
        aes::c11(),
        cbc::c12(),
        cbc::c13(),
        cbc::c14(),
        cbc::c15(),
        system::c16(),
        system::c17(),
        timing::c18(),
        platform::c19(),
        memory::c20(),
        constant::c21(),
        work::c22(),
        failed::c23(),
        errors::c24(),
        effects::c25(),
        safety::c26(),
    ]
}
