pub mod elfp;
pub mod machp;
pub mod model;
pub mod props;
pub mod scen;
pub mod sym;
