//! Scratch experiments (not part of any check).
pub fn run() {}
