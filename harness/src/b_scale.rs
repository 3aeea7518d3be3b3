// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod val;
mod own;
mod comps;
mod pools;
mod rec_limit;
mod rec_scale;

fn main() {
    driver::main(
        |_, s, _| {
            match s {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
        |w, out, seed, size| {
            match w {
                "capacity" => rec_limit::capacity(out, seed, size),
                "lifetimes" => rec_limit::lifetimes(out, seed, size),
                "scale_entities" => rec_scale::entities(out, seed, size),
                "scale_storages" => rec_scale::storages(out, seed, size),
                "scale_worlds" => rec_scale::worlds(out, seed, size),
                _ => return false,
            }
            true
        },
    );
}
