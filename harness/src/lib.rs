pub mod dsl;
pub mod gen;
pub mod glue;
pub mod lexref;
pub mod lr;
pub mod model;
pub mod rx;
pub mod util;
pub mod inputs;
pub mod parsing;
pub mod tsmap;
