//! The code of a release, frozen (the contracts, token and libraries of /repo as of its commit f342cf9,
//! without their tests), as the origin of upgrades: see harness/src/upgrade.rs. Nothing else uses it.
#![allow(warnings)]
pub mod bignumber;
pub mod factory;
pub mod haloswap;
pub mod pair;
pub mod router;
pub mod token;
