//! What the programs generated from spec/Borrows.tla and spec/Threads.tla use besides the library.
pub use goggles;
pub use goggles::*;
pub use goggles::{hibitset, rayon};
use std::marker::PhantomData;

// ---------------------------------------------------------------- Borrows

pub const MAGIC: u64 = 0x5eed_c0de_1234_5678;

#[derive(Clone, Debug)]
pub struct V(pub u64, pub Box<u64>);

pub fn v() -> V {
    V(MAGIC, Box::new(MAGIC))
}

impl Default for V {
    fn default() -> V {
        v()
    }
}

pub struct FlagDense(pub V);
pub struct Dense(pub V);
pub struct Vecs(pub V);
pub struct Hash(pub V);
pub struct FlagVec(pub V);

pub trait Has: Sized {
    fn new() -> Self;
    fn touch(&self);
    fn poke(&mut self);
}

impl Has for V {
    fn new() -> V {
        v()
    }
    fn touch(&self) {
        let a = unsafe { std::ptr::read_volatile(&self.0) };
        if a != MAGIC || *self.1 != MAGIC {
            println!("WRONG");
            std::process::exit(5);
        }
    }
    fn poke(&mut self) {
        self.touch();
        unsafe { std::ptr::write_volatile(&mut self.0, MAGIC) };
    }
}

macro_rules! comp {
    ($t:ident, $s:ty) => {
        impl Has for $t {
            fn new() -> Self {
                $t(v())
            }
            fn touch(&self) {
                self.0.touch()
            }
            fn poke(&mut self) {
                self.0.poke()
            }
        }
        impl Default for $t {
            fn default() -> Self {
                Has::new()
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                $t(self.0.clone())
            }
        }
        impl Component for $t {
            type Storage = $s;
        }
    };
}
comp!(FlagDense, Flagged<DenseVecStorage<FlagDense>>);
comp!(Dense, DenseVecStorage<Dense>);
comp!(Vecs, VecStorage<Vecs>);
comp!(Hash, HashMapStorage<Hash>);
comp!(FlagVec, Flagged<VecStorage<FlagVec>>);

pub fn touch<T: Has>(t: &T) {
    t.touch()
}
pub fn poke<T: Has>(t: &mut T) {
    t.poke()
}

pub fn bits_of<B: hibitset::BitSetLike>(b: &B) {
    let n = hibitset::BitSetLike::iter(b).count();
    if n > 3 {
        println!("WRONG");
        std::process::exit(5);
    }
}

pub trait Track {
    fn track(&mut self) {}
}
impl Track for MaskedStorage<<FlagDense as Component>::Storage> {
    fn track(&mut self) {
        self.set_track_modified(true);
        self.mark_modified(0);
        self.mark_modified(1);
    }
}
impl Track for MaskedStorage<<FlagVec as Component>::Storage> {
    fn track(&mut self) {
        self.set_track_modified(true);
        self.mark_modified(0);
        self.mark_modified(1);
    }
}
impl Track for MaskedStorage<<Dense as Component>::Storage> {}
impl Track for MaskedStorage<<Vecs as Component>::Storage> {}
impl Track for MaskedStorage<<Hash as Component>::Storage> {}

pub fn mk_st<C>() -> MaskedStorage<C::Storage>
where
    C: Component + Has,
    C::Storage: Default,
    MaskedStorage<C::Storage>: Track,
{
    let mut s = MaskedStorage::<C::Storage>::default();
    s.insert(0, C::new());
    s.insert(1, C::new());
    s.track();
    s
}

/// A world with two entities that have the component, a deletion of the first one pending.
pub fn mk_w<C>() -> (World, Entity)
where
    C: Component + Has + Send + Sync + 'static,
    C::Storage: Default + Send + Sync,
    MaskedStorage<C::Storage>: Track,
{
    let mut w = World::new();
    w.insert_component::<C>();
    let (a, b) = (w.create_entity(), w.create_entity());
    {
        let mut c = w.get_component_mut::<C>();
        let _ = c.insert(a, C::new());
        let _ = c.insert(b, C::new());
        c.storage_mut().track();
    }
    w.insert_resource(v());
    let _ = w.entities().delete(a);
    (w, a)
}

pub fn mk_rs() -> ResourceSet {
    let mut s = ResourceSet::new();
    s.insert(v());
    s
}

pub fn mk_set<C>() -> AnyComponentSet
where
    C: Component + Has + Send + Sync + 'static,
    C::Storage: Send,
{
    let mut s = AnyComponentSet::new();
    s.insert(C::new());
    s
}

pub fn mk_cset<C>() -> AnyCloneComponentSet
where
    C: Component + Has + Clone + Send + Sync + 'static,
    C::Storage: Send,
{
    let mut s = AnyCloneComponentSet::new();
    s.insert(C::new());
    s
}

pub fn bits() -> hibitset::BitSet {
    let mut b = hibitset::BitSet::new();
    b.add(0);
    b.add(1);
    b
}

/// The program has come to the last use of the reference.
pub fn reached() -> ! {
    if cfg!(miri) {
        // everything is dropped as usual
        std::panic::resume_unwind(Box::new("reached"));
    }
    println!("REACHED");
    std::process::exit(0)
}

/// A panic ends the program.  The standard library's own checks of unsafe calls panic too.
pub fn hook(message: &str) {
    if message.contains("unsafe precondition") {
        println!("UNDEFINED");
    }
    std::process::exit(101)
}

// ---------------------------------------------------------------- Threads

macro_rules! class {
    ($n:ident, $t:ty, $x:expr) => {
        pub struct $n(pub $t);
        impl Default for $n {
            fn default() -> Self {
                $n($x)
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                Self::default()
            }
        }
    };
}
class!(SendSync, u64, 0);
class!(SendOnly, std::cell::Cell<u64>, std::cell::Cell::new(0));
class!(SyncOnly, PhantomData<std::sync::MutexGuard<'static, ()>>, PhantomData);
class!(Neither, PhantomData<*const ()>, PhantomData);

pub struct KVec;
pub struct KDense;
pub struct KHash;
pub struct KFlag;
pub struct KFlagDense;

/// A component of class `T` kept in storage `K`.
pub struct C<T, K>(pub T, PhantomData<fn() -> K>);
impl<T: Default, K> Default for C<T, K> {
    fn default() -> Self {
        C(T::default(), PhantomData)
    }
}
impl<T: Default, K> Clone for C<T, K> {
    fn clone(&self) -> Self {
        Self::default()
    }
}
impl<T> Component for C<T, KVec> {
    type Storage = VecStorage<Self>;
}
impl<T> Component for C<T, KDense> {
    type Storage = DenseVecStorage<Self>;
}
impl<T> Component for C<T, KHash> {
    type Storage = HashMapStorage<Self>;
}
impl<T> Component for C<T, KFlag> {
    type Storage = Flagged<VecStorage<Self>>;
}
impl<T> Component for C<T, KFlagDense> {
    type Storage = Flagged<DenseVecStorage<Self>>;
}

pub fn shr<T: ?Sized>(_: &T) {}
pub fn exc<T: ?Sized>(_: &mut T) {}
pub fn own<T>(_: T) {}

pub struct Fault<E>(pub E);
impl<E> goggles::system::Error for Fault<E> {
    fn combine(self, _: Self) -> Self {
        self
    }
}

/// Holds a value; fails with a value.
pub struct Sys<T, E>(pub T, pub PhantomData<fn() -> E>);
impl<T, E: Default, A> System<A> for Sys<T, E> {
    type Resources = RwResources<u8>;
    type Pool = RayonPool;
    type Error = Fault<E>;
    fn check_resources(&self) -> Result<Self::Resources, ResourceConflict> {
        Ok(RwResources::new())
    }
    fn run(&mut self, _: &RayonPool, _: A) -> Result<(), Fault<E>> {
        exc(&mut self.0);
        Err(Fault(E::default()))
    }
}

/// A pool that holds a value, and a system that looks at it.
pub struct Holder<T>(pub T);
impl<T> Pool for Holder<T> {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        rayon::join(a, b)
    }
}
pub struct Looks<T>(pub PhantomData<fn() -> T>);
impl<T> System<()> for Looks<T> {
    type Resources = RwResources<u8>;
    type Pool = Holder<T>;
    type Error = std::convert::Infallible;
    fn check_resources(&self) -> Result<Self::Resources, ResourceConflict> {
        Ok(RwResources::new())
    }
    fn run(&mut self, pool: &Holder<T>, _: ()) -> Result<(), std::convert::Infallible> {
        shr(&pool.0);
        Ok(())
    }
}
