// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod val;
mod own;
mod comps;
mod sut_world;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "world" => sut!(cmd, a, sut_world, sut_world::VARIANTS),
                "world_tracked" => sut!(cmd, a, sut_world, sut_world::TRACKED),
                _ => return false,
            }
            true
        },
        |w, _, _, _| {
            match w {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
    );
}
