//! Everything the executor interprets, in one module.
#[no_mangle]
pub extern "C" fn sym_main(id: u32, tier: u32) {
    harness::props::run(id, tier);
}
pub use harness::props::{__model_fdatasync, __model_fsync, __model_ftruncate64, __model_lseek64, __model_pwrite64, __model_write, __model_writev};
