// One of the binaries of the harness; see driver.rs.
#[macro_use]
mod json;
mod graph;
mod rng;
#[macro_use]
mod driver;
mod val;
mod own;
mod sut_storage;

fn main() {
    driver::main(
        |cmd, s, a| {
            match s {
                "storage_plain" => sut!(cmd, a, sut_storage, sut_storage::PLAIN),
                "storage_tracked" => sut!(cmd, a, sut_storage, sut_storage::TRACKED),
                _ => return false,
            }
            true
        },
        |w, _, _, _| {
            match w {
                _ => return false,
            }
            #[allow(unreachable_code)]
            true
        },
    );
}
