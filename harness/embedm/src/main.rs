//! A program with the schemas that the check has written for this run.
include!(env!("STYX_EMBEDDED"));
fn main() {}
