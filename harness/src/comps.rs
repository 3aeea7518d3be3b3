//! Component types, one per storage kind.
use crate::own::Own;
use crate::val::Val;
use goggles::storage::{DenseVecStorage, HashMapStorage, RawStorage, VecStorage};
use goggles::{Component, Entity, Flagged, World};

pub trait Comp: Component + Clone + Send + Sync + 'static
where
    Self::Storage: RawStorage<Item = Self> + Default + Send + Sync,
{
    fn new(v: Val) -> Self;
    fn val(&self) -> &Val;
    fn val_mut(&mut self) -> &mut Val;
    fn into_val(self) -> Val;
    const TRACKED: bool = false;
    fn tracking(_: &World) -> bool {
        false
    }
    fn modified(_: &World) -> Vec<u32> {
        vec![]
    }
    fn set_track(_: &mut World, _: bool) {
        panic!("harness: not tracked")
    }
    fn clear(_: &mut World) {
        panic!("harness: not tracked")
    }
    fn mark(_: &World, _: Entity) -> bool {
        panic!("harness: not tracked")
    }
}

macro_rules! comp {
    ($n:ident, $s:ty $(, $t:ident)?) => {
        #[derive(Clone, Debug)]
        pub struct $n(pub Val);
        impl Component for $n {
            type Storage = $s;
        }
        impl Comp for $n {
            fn new(v: Val) -> Self {
                $n(v)
            }
            fn val(&self) -> &Val {
                &self.0
            }
            fn val_mut(&mut self) -> &mut Val {
                &mut self.0
            }
            fn into_val(self) -> Val {
                self.0
            }
            $(comp!{@ $t $n})?
        }
    };
    (@ tracked $n:ident) => {
        const TRACKED: bool = true;
        fn tracking(w: &World) -> bool {
            w.read_component::<$n>().tracking_modified()
        }
        fn modified(w: &World) -> Vec<u32> {
            use goggles::hibitset::BitSetLike;
            w.read_component::<$n>().modified_indexes().iter().collect()
        }
        fn set_track(w: &mut World, b: bool) {
            w.write_component::<$n>().set_track_modified(b)
        }
        fn clear(w: &mut World) {
            w.get_component_mut::<$n>().clear_modified()
        }
        fn mark(w: &World, e: Entity) -> bool {
            w.read_component::<$n>().mark_modified(e).is_ok()
        }
    };
}
comp!(CVec, VecStorage<CVec>);
comp!(CDense, DenseVecStorage<CDense>);
comp!(CHash, HashMapStorage<CHash>);
comp!(COwn, Own<COwn>);
comp!(CFVec, Flagged<VecStorage<CFVec>>, tracked);
comp!(CFDense, Flagged<DenseVecStorage<CFDense>>, tracked);
comp!(CFHash, Flagged<HashMapStorage<CFHash>>, tracked);
