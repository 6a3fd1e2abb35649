include!("base.rs");
#[allow(dangerous_implicit_autorefs)]
pub mod cli;
table!(cli::x_get, cli::x_set);
