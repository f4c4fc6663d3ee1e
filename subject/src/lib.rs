//! Nothing: this package only holds the two binaries.
