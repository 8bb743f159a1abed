pub mod apart;
pub mod cursors;
pub mod edits;
pub mod files;
pub mod history;
pub mod query;
pub mod tokens;
pub mod workspace;
pub mod disk;
pub mod extra;
