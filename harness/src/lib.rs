//! Bounded-exhaustive model checking of the real `infrared` code.
//!
//! * `report`  - bookkeeping: counters, violations, evidence, watchdog, parallel exploration
//! * `spec`    - the independent reference: published waveforms, tolerances, reference decoders
//! * `imp`     - thin adapters around the public API of the crate under test
//! * `gen`     - alphabets, word sets and edge-stream generators
//! * `reach`   - all reachable states of the receivers
//! * `soak`    - the same building blocks repeated tens of thousands of times
pub mod alloc;
pub mod gen;
pub mod imp;
pub mod reach;
pub mod report;
pub mod soak;
pub mod spec;
pub use gen::*;
pub use imp::*;
pub use reach::*;
pub use report::*;
pub use soak::*;
pub use spec::*;
