// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod sut_alloc;
mod sut_rw;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "alloc" => sut!(cmd, a, sut_alloc),
                "rwres" => sut!(cmd, a, sut_rw),
                _ => return false,
            }
            true
        },
        |w, _, _, _| {
            match w {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
    );
}
