//! Parts of the harness that do not depend on the code under test.
pub mod doc;
pub mod engine;
pub mod shrink;
pub mod text;
