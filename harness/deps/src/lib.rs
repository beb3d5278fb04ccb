//! Pulls in the crates the generated programs link against.
