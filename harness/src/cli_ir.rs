include!("cli_all.rs");
#[allow(dangerous_implicit_autorefs)]
pub mod libc_model;
