//! Not used by the rust-sdk.
