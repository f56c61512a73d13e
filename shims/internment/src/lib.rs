//! Stand-in for `internment` 0.8 (`Intern` only): interning by linear scan
//! over equality instead of a hash table, so that symbolic text can be
//! interned. Same contract: equal contents <=> same pointer.
use std::any::Any;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::cell::UnsafeCell;

pub struct Intern<T: 'static + ?Sized> {
    pointer: &'static T,
}
// Not locked: interning is one indivisible step for the scheduler of the
// symbolic engine, which is the only thing that runs this crate.
struct Table(UnsafeCell<Vec<(u64, &'static (dyn Any + Send + Sync))>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(UnsafeCell::new(Vec::new()));

impl<T: ?Sized> Clone for Intern<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: ?Sized> Copy for Intern<T> {}
impl<T: Eq + Hash + Send + Sync + 'static> Intern<T> {
    pub fn new(val: T) -> Intern<T> {
        let t = unsafe { &mut *TABLE.0.get() };
        for (_, e) in t.iter() {
            if let Some(x) = e.downcast_ref::<T>() {
                if *x == val {
                    return Intern { pointer: x };
                }
            }
        }
        let p: &'static T = Box::leak(Box::new(val));
        t.push((0, p));
        Intern { pointer: p }
    }
    pub fn from_ref<Q: ?Sized + Eq + Hash>(val: &Q) -> Intern<T>
    where
        T: Borrow<Q> + for<'a> From<&'a Q>,
    {
        Self::new(T::from(val))
    }
}
impl<T: ?Sized> Intern<T> {
    #[allow(clippy::should_implement_trait)]
    pub fn as_ref(self) -> &'static T {
        self.pointer
    }
}
impl<T: ?Sized> Deref for Intern<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.pointer
    }
}
impl<T: ?Sized> AsRef<T> for Intern<T> {
    fn as_ref(&self) -> &T {
        self.pointer
    }
}
impl<T: Display + ?Sized> Display for Intern<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.pointer.fmt(f)
    }
}
impl<T: Debug + ?Sized> Debug for Intern<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.pointer.fmt(f)
    }
}
impl<T: ?Sized> Hash for Intern<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        (self.pointer as *const T as *const u8 as usize).hash(state)
    }
}
impl<T: ?Sized> PartialEq for Intern<T> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.pointer as *const T as *const u8, other.pointer as *const T as *const u8)
    }
}
impl<T: ?Sized> Eq for Intern<T> {}
impl<T: PartialOrd + ?Sized> PartialOrd for Intern<T> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        self.pointer.partial_cmp(other.pointer)
    }
}
impl<T: Ord + ?Sized> Ord for Intern<T> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.pointer.cmp(other.pointer)
    }
}
impl<T: Eq + Hash + Send + Sync + 'static> From<T> for Intern<T> {
    fn from(t: T) -> Self {
        Intern::new(t)
    }
}
impl<T: Eq + Hash + Send + Sync + Default + 'static> Default for Intern<T> {
    fn default() -> Self {
        Intern::new(T::default())
    }
}
