// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod pools;
mod sut_sys;
mod rec_app;

fn main() {
    driver::main(
        |_, _, _| false,
        |w, out, seed, size| {
            match w {
                "app" => rec_app::record(out, seed, size),
                "holds" => rec_app::holds(out, seed, size),
                _ => return false,
            }
            true
        },
    );
}
