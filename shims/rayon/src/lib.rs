//! Sequentialised stand-in for `rayon`, used only in the verification build.
//!
//! Every task (a `spawn`ed closure, a `join` arm, one item of a parallel iterator) is executed
//! atomically; the order in which tasks run is chosen by an external oracle (`set_chooser`), which the
//! verification harness can turn into symbolic choices so that all task orders are explored.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static NUM_THREADS: AtomicUsize = AtomicUsize::new(1);
static MODE: AtomicUsize = AtomicUsize::new(0);
static CHOOSER: AtomicUsize = AtomicUsize::new(0);

/// 0: run at spawn, 1: deferred FIFO, 2: deferred LIFO, 3: order chosen by the chooser.
pub fn verif_set_mode(m: usize) {
    MODE.store(m, SeqCst);
}
pub fn verif_set_num_threads(n: usize) {
    NUM_THREADS.store(n, SeqCst);
}
/// chooser(n) returns an index in 0..n
pub fn verif_set_chooser(f: fn(usize) -> usize) {
    CHOOSER.store(f as usize, SeqCst);
}
fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    match MODE.load(SeqCst) {
        2 => n - 1,
        3 | 4 => {
            let f: fn(usize) -> usize = unsafe { std::mem::transmute(CHOOSER.load(SeqCst)) };
            f(n)
        }
        _ => 0,
    }
}

pub fn current_num_threads() -> usize {
    NUM_THREADS.load(SeqCst)
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if MODE.load(SeqCst) == 4 {
        // real threads; the executor explores the interleavings
        return if choose(2) == 0 {
            std::thread::scope(|s| {
                let h = s.spawn(b);
                let ra = a();
                (ra, h.join().unwrap())
            })
        } else {
            std::thread::scope(|s| {
                let h = s.spawn(a);
                let rb = b();
                (h.join().unwrap(), rb)
            })
        };
    }
    if choose(2) == 0 {
        let ra = a();
        let rb = b();
        (ra, rb)
    } else {
        let rb = b();
        let ra = a();
        (ra, rb)
    }
}

pub struct Scope<'scope> {
    tasks: RefCell<Vec<Box<dyn FnOnce(&Scope<'scope>) + 'scope>>>,
    _p: PhantomData<fn(&'scope ()) -> &'scope ()>,
}
impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        if MODE.load(SeqCst) == 0 {
            body(self)
        } else {
            self.tasks.borrow_mut().push(Box::new(body))
        }
    }
    fn run(&self) {
        loop {
            let n = self.tasks.borrow().len();
            if n == 0 {
                break;
            }
            let i = choose(n);
            let t = self.tasks.borrow_mut().remove(i);
            t(self);
        }
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    let s = Scope { tasks: RefCell::new(Vec::new()), _p: PhantomData };
    let r = op(&s);
    s.run();
    r
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    idx: usize,
    main: *mut Option<Box<dyn FnOnce()>>,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.idx
    }
    /// Runs the thread; in this stand-in the single "worker" runs the installed operation.
    pub fn run(self) {
        let f = unsafe { (*self.main).take() };
        if let Some(f) = f {
            f()
        }
    }
}
pub struct ThreadPool {}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
#[derive(Default)]
pub struct ThreadPoolBuilder {}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self {}
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool {})
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    /// `wrapper` is entered once (one worker) and the operation runs on that worker, i.e. inside the wrapper,
    /// so that scoped thread locals installed by the wrapper are visible to the tasks, as with the real pool.
    pub fn build_scoped<W, F, R>(self, wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let mut result: Option<R> = None;
        {
            let res: *mut Option<R> = &mut result;
            let f: Box<dyn FnOnce() + '_> = Box::new(move || unsafe { *res = Some(with_pool(&ThreadPool {})) });
            let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
            let mut cell = Some(f);
            wrapper(ThreadBuilder { idx: 0, main: &mut cell });
        }
        Ok(result.expect("pool operation did not run"))
    }
}

pub mod iter {
    pub use super::prelude::*;
}

pub mod prelude {
    use super::MODE;
    use std::sync::atomic::Ordering::SeqCst;

    pub trait ParallelIterator: Sized {
        type Item;
        type Seq: Iterator<Item = Self::Item>;
        fn seq(self) -> Self::Seq;
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            if MODE.load(SeqCst) < 2 {
                for x in self.seq() {
                    f(x)
                }
            } else {
                // modes 2 and 3: from last to first
                let items: Vec<_> = self.seq().collect();
                for x in items.into_iter().rev() {
                    f(x)
                }
            }
        }
        fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<std::iter::Map<Self::Seq, F>> {
            Par(self.seq().map(f))
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<std::iter::Filter<Self::Seq, F>> {
            Par(self.seq().filter(f))
        }
        fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C {
            self.seq().collect()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.seq().max()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.seq().min()
        }
        fn count(self) -> usize {
            self.seq().count()
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.seq().sum()
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            let mut s = self.seq();
            s.any(f)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            let mut s = self.seq();
            s.all(f)
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::Seq, <Z::Iter as ParallelIterator>::Seq>> {
            Par(self.seq().zip(z.into_par_iter().seq()))
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::Seq, <Z::Iter as ParallelIterator>::Seq>> {
            Par(self.seq().zip(z.into_par_iter().seq()))
        }
        fn enumerate(self) -> Par<std::iter::Enumerate<Self::Seq>> {
            Par(self.seq().enumerate())
        }
    }
    pub struct Par<I>(pub I);
    impl<I: Iterator> ParallelIterator for Par<I> {
        type Item = I::Item;
        type Seq = I;
        fn seq(self) -> I {
            self.0
        }
    }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}

    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<I: ParallelIterator> IntoParallelIterator for I {
        type Item = I::Item;
        type Iter = Self;
        fn into_par_iter(self) -> Self {
            self
        }
    }
    impl<'a, T> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Par<std::vec::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    impl<T> IntoParallelIterator for std::ops::Range<T>
    where
        std::ops::Range<T>: Iterator<Item = T>,
    {
        type Item = T;
        type Iter = Par<std::ops::Range<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self)
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item: 'a;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn par_iter(&'a self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn par_iter(&'a self) -> Self::Iter {
            Par(self.iter())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: 'a;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for [T] {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for Vec<T> {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    pub trait ParallelSlice<T> {
        fn as_par_slice(&self) -> &[T];
        fn par_windows(&self, w: usize) -> Par<std::slice::Windows<'_, T>> {
            Par(self.as_par_slice().windows(w))
        }
        fn par_chunks(&self, w: usize) -> Par<std::slice::Chunks<'_, T>> {
            Par(self.as_par_slice().chunks(w))
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_par_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn as_par_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, w: usize) -> Par<std::slice::ChunksMut<'_, T>> {
            Par(self.as_par_slice_mut().chunks_mut(w))
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_par_slice_mut().sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_par_slice_mut().sort_unstable()
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_par_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}
