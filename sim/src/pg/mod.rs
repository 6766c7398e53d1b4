//! A deterministic model of a PostgreSQL server: catalogs, transactions, locks and wire protocol.
pub mod ast;
pub mod ddl;
pub mod dml;
pub mod dump;
pub mod expr;
pub mod lex;
pub mod parse;
pub mod query;
pub mod store;
pub mod types;
pub mod wire;
