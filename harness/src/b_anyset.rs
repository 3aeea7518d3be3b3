// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod val;
mod own;
mod comps;
mod sut_anyset;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "anyset" => sut!(cmd, a, sut_anyset, sut_anyset::MOVING),
                "anyclone" => sut!(cmd, a, sut_anyset, sut_anyset::CLONING),
                _ => return false,
            }
            true
        },
        |w, _, _, _| {
            match w {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
    );
}
