pub mod core;
pub mod dump;
pub mod gen;
pub mod jobs;
pub mod peg;
pub mod vp;

#[no_mangle]
pub extern "C" fn vp_main() {
    let i = vp::arg() as usize;
    (jobs::JOBS[i].run)();
}
