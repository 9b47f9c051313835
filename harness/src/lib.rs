pub mod alloc;
pub mod case;
pub mod checks;
pub mod num;
pub mod oracle;
pub mod runner;
pub mod scalar;
pub mod tape;
pub mod wrap;
