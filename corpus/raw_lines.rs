#[no_mangle]
pub extern "C" fn root() {
}
