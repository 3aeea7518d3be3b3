// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod rec_types;

fn main() {
    driver::main(
        |_, s, _| {
            match s {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
        |w, out, seed, size| {
            match w {
                "types" => rec_types::types(out, seed, size),
                _ => return false,
            }
            true
        },
    );
}
