//! Runtime monitors for husk. `refc`, `refp256`, `wire` and `sim` are independent of husk's code:
//! they are the reference the monitors compare observed executions with.
pub mod alloc;
pub mod dict;
pub mod entropy;
pub mod mon;
pub mod mutate;
pub mod peer;
pub mod prng;
pub mod refc;
pub mod refp256;
pub mod sim;
pub mod vg;
pub mod wire;
