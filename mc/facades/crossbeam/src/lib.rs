//! crossbeam, with its channels under the explorer.
pub use real::*;
pub mod channel {
    pub use dam_mc::cb::*;
}
