//! Stand-in, empty.
