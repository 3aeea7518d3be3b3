use goggles::rayon;
use std::sync::OnceLock;

pub fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 33] = [const { OnceLock::new() }; 33];
    P[n].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("harness: pool"))
}
