//! Declarations deriving DecodeAsType, generated, and the engine that decodes into them.
#![allow(clippy::all)]
