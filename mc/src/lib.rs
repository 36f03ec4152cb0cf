#[cfg(feature = "core")]
pub mod c08;
#[cfg(feature = "core")]
pub mod c18;
pub mod cli;
pub mod desc;
pub mod driver;
pub mod engine;
pub mod enumr;
pub mod explore;
pub mod judges;
pub mod model;
pub mod report;
pub mod prelude {
  pub use crate::desc::det::HashSet;
  pub use crate::desc::*;
  pub use indexmap::IndexSet;
  pub use ::ordermap::OrderSet;
  pub use serde::{Deserialize, Serialize};
  pub use std::collections::BTreeSet;
  pub use ttgraph::*;
}
#[cfg(feature = "core")]
pub mod suites;
#[cfg(feature = "core")]
#[allow(unused_variables, dead_code)]
pub mod schemas;
