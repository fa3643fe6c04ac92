pub mod ast;
pub mod model;
pub mod reduce;
pub mod rename;
pub mod value;
pub mod dom;
pub mod space;
pub mod mutate;
