//! Parallel iteration under the seeded scheduler: an iteration has one to
//! four threads, of which one runs at a time (the shim says which, and changes
//! it at operations on files and waits for locks); the order in which the items
//! are taken is drawn from SIM_SEED. Results are in the order of the items, as
//! rayon has it.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static N: AtomicU64 = AtomicU64::new(0);
fn order(n: usize) -> (usize, Vec<usize>) {
    let mut s = std::env::var("SIM_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    s = s.wrapping_mul(0x2545f4914f6cdd1d) ^ N.fetch_add(1, Ordering::SeqCst).wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut v: Vec<usize> = (0..n).collect();
    let threads = 1 + (next() >> 20) as usize % 4;
    for i in (1..n).rev() {
        v.swap(i, (next() % (i as u64 + 1)) as usize);
    }
    (threads.min(n), v)
}

extern "C" {
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
}
struct Sched {
    begin: extern "C" fn(i32),
    start: extern "C" fn(i32),
    end: extern "C" fn(),
    inside: extern "C" fn() -> i32,
}
fn sched() -> Option<Sched> {
    unsafe {
        let f = |n: &[u8]| dlsym(std::ptr::null_mut(), n.as_ptr());
        let (b, s, e, i) = (f(b"crlsim_begin\0"), f(b"crlsim_start\0"), f(b"crlsim_end\0"), f(b"crlsim_inside\0"));
        if b.is_null() {
            return None;
        }
        Some(Sched {
            begin: std::mem::transmute::<*mut u8, extern "C" fn(i32)>(b),
            start: std::mem::transmute::<*mut u8, extern "C" fn(i32)>(s),
            end: std::mem::transmute::<*mut u8, extern "C" fn()>(e),
            inside: std::mem::transmute::<*mut u8, extern "C" fn() -> i32>(i),
        })
    }
}
fn run<T: Send, R: Send>(items: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let n = items.len();
    let items: Vec<Mutex<Option<T>>> = items.into_iter().map(|x| Mutex::new(Some(x))).collect();
    let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let (threads, order) = order(n);
    let todo = Mutex::new(order.into_iter());
    let work = || loop {
        let Some(i) = todo.lock().unwrap().next() else { break };
        let x = items[i].lock().unwrap().take().unwrap();
        let r = f(x);
        *out[i].lock().unwrap() = Some(r);
    };
    match sched() {
        Some(s) if threads > 1 && (s.inside)() == 0 => {
            (s.begin)(threads as i32);
            let panics: Vec<_> = std::thread::scope(|scope| {
                let handles: Vec<_> = (0..threads)
                    .map(|t| {
                        let (s, work) = (&s, &work);
                        scope.spawn(move || {
                            (s.start)(t as i32);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(work));
                            (s.end)();
                            r
                        })
                    })
                    .collect();
                handles.into_iter().filter_map(|h| h.join().and_then(|r| r).err()).collect()
            });
            if let Some(p) = panics.into_iter().next() {
                std::panic::resume_unwind(p);
            }
        }
        _ => work(),
    }
    out.into_iter().map(|x| x.into_inner().unwrap().unwrap()).collect()
}

pub struct Par<T>(Vec<T>);

pub trait ParallelIterator: Sized {
    type Item: Send;
    fn items(self) -> Vec<Self::Item>;
    fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
        Par(run(self.items(), f))
    }
    fn map_with<S: Clone + Send + Sync, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, s: S, f: F) -> Par<R> {
        Par(run(self.items(), |x| f(&mut s.clone(), x)))
    }
    fn map_init<S, I: Fn() -> S + Sync + Send, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, i: I, f: F) -> Par<R> {
        Par(run(self.items(), |x| f(&mut i(), x)))
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
        Par(run(self.items(), |x| if f(&x) { Some(x) } else { None }).into_iter().flatten().collect())
    }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
        Par(run(self.items(), f).into_iter().flatten().collect())
    }
    fn flat_map<I: IntoIterator + Send, F: Fn(Self::Item) -> I + Sync + Send>(self, f: F) -> Par<I::Item>
    where
        I::Item: Send,
    {
        Par(run(self.items(), f).into_iter().flatten().collect())
    }
    fn flat_map_iter<I: IntoIterator + Send, F: Fn(Self::Item) -> I + Sync + Send>(self, f: F) -> Par<I::Item>
    where
        I::Item: Send,
    {
        self.flat_map(f)
    }
    fn flatten(self) -> Par<<Self::Item as IntoIterator>::Item>
    where
        Self::Item: IntoIterator,
        <Self::Item as IntoIterator>::Item: Send,
    {
        Par(self.items().into_iter().flatten().collect())
    }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
        Par(run(self.items(), |x| {
            f(&x);
            x
        }))
    }
    fn cloned<'a, T: 'a + Clone + Send>(self) -> Par<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Par(self.items().into_iter().cloned().collect())
    }
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        run(self.items(), f);
    }
    fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
        run(self.items(), f).into_iter().collect()
    }
    fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C {
        self.items().into_iter().collect()
    }
    fn unzip<A, B, CA: Default + Extend<A>, CB: Default + Extend<B>>(self) -> (CA, CB)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        self.items().into_iter().unzip()
    }
    fn reduce<I: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: I, f: F) -> Self::Item {
        // in two halves, as rayon splits
        let mut a = self.items();
        let b = a.split_off(a.len() / 2);
        let x = a.into_iter().fold(id(), &f);
        let y = b.into_iter().fold(id(), &f);
        f(x, y)
    }
    fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> Option<Self::Item> {
        self.items().into_iter().reduce(f)
    }
    fn fold<A: Send, I: Fn() -> A, F: Fn(A, Self::Item) -> A>(self, id: I, f: F) -> Par<A> {
        let mut a = self.items();
        let b = a.split_off(a.len() / 2);
        Par(vec![a.into_iter().fold(id(), &f), b.into_iter().fold(id(), &f)])
    }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
        self.items().into_iter().sum()
    }
    fn count(self) -> usize {
        self.items().len()
    }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        run(self.items(), f).into_iter().any(|x| x)
    }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        run(self.items(), f).into_iter().all(|x| x)
    }
    fn enumerate(self) -> Par<(usize, Self::Item)> {
        Par(self.items().into_iter().enumerate().collect())
    }
    fn zip<B: IntoParallelIterator>(self, b: B) -> Par<(Self::Item, B::Item)> {
        Par(self.items().into_iter().zip(b.into_par_iter().items()).collect())
    }
    fn chain<B: IntoParallelIterator<Item = Self::Item>>(self, b: B) -> Par<Self::Item> {
        let mut v = self.items();
        v.extend(b.into_par_iter().items());
        Par(v)
    }
    fn with_max_len(self, _n: usize) -> Self {
        self
    }
    fn with_min_len(self, _n: usize) -> Self {
        self
    }
}
impl<T: Send> ParallelIterator for Par<T> {
    type Item = T;
    fn items(self) -> Vec<T> {
        self.0
    }
}
pub trait IntoParallelIterator {
    type Item: Send;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<I: IntoIterator> IntoParallelIterator for I
where
    I::Item: Send,
{
    type Item = I::Item;
    fn into_par_iter(self) -> Par<I::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait IntoParallelRefIterator<'a> {
    type Item: 'a + Send;
    fn par_iter(&'a self) -> Par<Self::Item>;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
where
    &'a I: IntoIterator,
    <&'a I as IntoIterator>::Item: Send,
{
    type Item = <&'a I as IntoIterator>::Item;
    fn par_iter(&'a self) -> Par<Self::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a + Send;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
where
    &'a mut I: IntoIterator,
    <&'a mut I as IntoIterator>::Item: Send,
{
    type Item = <&'a mut I as IntoIterator>::Item;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait ParallelBridge: Iterator + Sized
where
    Self::Item: Send,
{
    fn par_bridge(self) -> Par<Self::Item> {
        Par(self.collect())
    }
}
impl<I: Iterator> ParallelBridge for I where I::Item: Send {}
pub use ParallelIterator as IndexedParallelIterator;
pub mod iter {
    pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator};
}
pub mod prelude {
    pub use crate::iter::*;
}
pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    if order(2).1[0] == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
