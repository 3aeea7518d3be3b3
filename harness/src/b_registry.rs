// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod val;
mod sut_registry;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "reg_set" => sut!(cmd, a, sut_registry, sut_registry::SET),
                "reg_world" => sut!(cmd, a, sut_registry, sut_registry::WORLD),
                _ => return false,
            }
            true
        },
        |w, _, _, _| {
            match w {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
    );
}
