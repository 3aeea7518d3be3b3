// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod pools;
mod sut_sys;
mod rec_sys;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "systems" => sut!(cmd, a, sut_sys, sut_sys::VARIANTS),
                "plize" => sut!(cmd, a, sut_sys, sut_sys::PLIZE, plize_tags),
                _ => return false,
            }
            true
        },
        |w, out, seed, size| {
            match w {
                "sys" => rec_sys::record(out, seed, size),
                _ => return false,
            }
            true
        },
    );
}
