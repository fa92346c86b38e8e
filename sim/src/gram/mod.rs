pub mod measure;
pub mod ast;
pub mod build;
pub mod env;
pub mod model;
pub mod run;
pub mod seq;
