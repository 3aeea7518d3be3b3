// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod rec_conc;

fn main() {
    driver::main(
        |_, s, _| {
            match s {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
        |w, out, seed, size| {
            match w {
                "conc_schedules" => rec_conc::schedules(out, seed, size),
                "conc_stress" => rec_conc::stress(out, seed, size),
                _ => return false,
            }
            true
        },
    );
}
