//! Builds the macro alone, for the expansion monitors.
