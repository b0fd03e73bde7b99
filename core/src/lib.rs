#![recursion_limit = "1024"]
pub mod serial;
pub mod engine;
pub mod tens;
pub mod con;
