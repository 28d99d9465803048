pub mod contract;
