pub mod contract;
pub mod state;

