pub mod contract;
pub mod state;

mod error;

