//! Stand-in: panics are seen by the explorer.
pub fn set_once() {}
