pub mod asset;
pub mod factory;
pub mod pair;
pub mod querier;
pub mod router;
pub mod token;


