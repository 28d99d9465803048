mod math;

pub use crate::bignumber::math::{Decimal256, Uint256};
