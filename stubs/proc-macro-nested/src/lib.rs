//! Stand-in (not available offline).
