//! A user's storage, which relies on the documented contract of RawStorage: an index is empty when
//! something is inserted and holds a value when it is looked at or taken, and nothing is left when
//! the storage goes, for it would leak.
use goggles::storage::RawStorage;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;

pub struct Own<T>(BTreeMap<u32, UnsafeCell<ManuallyDrop<T>>>);

unsafe impl<T: Send> Send for Own<T> {}
unsafe impl<T: Sync> Sync for Own<T> {}
impl<T> Default for Own<T> {
    fn default() -> Self {
        Own(BTreeMap::new())
    }
}
impl<T> Own<T> {
    fn at(&self, i: u32) -> &UnsafeCell<ManuallyDrop<T>> {
        self.0.get(&i).unwrap_or_else(|| std::panic::panic_any(format!("a storage is asked for what it does not hold, at {i}")))
    }
}
impl<T> RawStorage for Own<T> {
    type Item = T;
    unsafe fn get(&self, i: u32) -> &T {
        &*self.at(i).get()
    }
    unsafe fn get_mut(&self, i: u32) -> &mut T {
        &mut *self.at(i).get()
    }
    unsafe fn insert(&mut self, i: u32, v: T) {
        self.0.insert(i, UnsafeCell::new(ManuallyDrop::new(v)));
    }
    unsafe fn remove(&mut self, i: u32) -> T {
        self.at(i);
        ManuallyDrop::into_inner(self.0.remove(&i).unwrap().into_inner())
    }
}
