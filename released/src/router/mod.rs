pub mod contract;
pub mod state;

mod operations;

