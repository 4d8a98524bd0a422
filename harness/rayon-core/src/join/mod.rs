use crate::FnContext;

/// Takes two closures and *potentially* runs them in parallel. It
/// returns a pair of the results from those closures.
///
/// Conceptually, calling `join()` is similar to spawning two threads,
/// one executing each of the two closures. However, the
/// implementation is quite different and incurs very low
/// overhead. The underlying technique is called "work stealing": the
/// Rayon runtime uses a fixed pool of worker threads and attempts to
/// only execute code in parallel when there are idle CPUs to handle
/// it.
///
/// When `join` is called from outside the thread pool, the calling
/// thread will block while the closures execute in the pool.  When
/// `join` is called within the pool, the calling thread still actively
/// participates in the thread pool. It will begin by executing closure
/// A (on the current thread). While it is doing that, it will advertise
/// closure B as being available for other threads to execute. Once closure A
/// has completed, the current thread will try to execute closure B;
/// if however closure B has been stolen, then it will look for other work
/// while waiting for the thief to fully execute closure B. (This is the
/// typical work-stealing strategy).
///
/// # Examples
///
/// This example uses join to perform a quick-sort (note this is not a
/// particularly optimized implementation: if you **actually** want to
/// sort for real, you should prefer [the `par_sort` method] offered
/// by Rayon).
///
/// [the `par_sort` method]: ../rayon/slice/trait.ParallelSliceMut.html#method.par_sort
///
/// ```rust
/// # use rayon_core as rayon;
/// let mut v = vec![5, 1, 8, 22, 0, 44];
/// quick_sort(&mut v);
/// assert_eq!(v, vec![0, 1, 5, 8, 22, 44]);
///
/// fn quick_sort<T:PartialOrd+Send>(v: &mut [T]) {
///    if v.len() > 1 {
///        let mid = partition(v);
///        let (lo, hi) = v.split_at_mut(mid);
///        rayon::join(|| quick_sort(lo),
///                    || quick_sort(hi));
///    }
/// }
///
/// // Partition rearranges all items `<=` to the pivot
/// // item (arbitrary selected to be the last item in the slice)
/// // to the first half of the slice. It then returns the
/// // "dividing point" where the pivot is placed.
/// fn partition<T:PartialOrd+Send>(v: &mut [T]) -> usize {
///     let pivot = v.len() - 1;
///     let mut i = 0;
///     for j in 0..pivot {
///         if v[j] <= v[pivot] {
///             v.swap(i, j);
///             i += 1;
///         }
///     }
///     v.swap(i, pivot);
///     i
/// }
/// ```
///
/// # Warning about blocking I/O
///
/// The assumption is that the closures given to `join()` are
/// CPU-bound tasks that do not perform I/O or other blocking
/// operations. If you do perform I/O, and that I/O should block
/// (e.g., waiting for a network request), the overall performance may
/// be poor.  Moreover, if you cause one closure to be blocked waiting
/// on another (for example, using a channel), that could lead to a
/// deadlock.
///
/// # Panics
///
/// No matter what happens, both closures will always be executed.  If
/// a single closure panics, whether it be the first or second
/// closure, that panic will be propagated and hence `join()` will
/// panic with the same panic value. If both closures panic, `join()`
/// will panic with the panic value from the first closure.
pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    #[inline]
    fn call<R>(f: impl FnOnce() -> R) -> impl FnOnce(FnContext) -> R {
        move |_| f()
    }

    join_context(call(oper_a), call(oper_b))
}

/// Identical to `join`, except that the closures have a parameter
/// that provides context for the way the closure has been called,
/// especially indicating whether they're executing on a different
/// thread than where `join_context` was called.  This will occur if
/// the second job is stolen by a different thread, or if
/// `join_context` was called from outside the thread pool to begin
/// with.
pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    #[inline]
    fn call_a<R>(f: impl FnOnce(FnContext) -> R, injected: bool) -> impl FnOnce() -> R {
        move || f(FnContext::new(injected))
    }

    #[inline]
    fn call_b<R>(f: impl FnOnce(FnContext) -> R) -> impl FnOnce(bool) -> R {
        move |migrated| f(FnContext::new(migrated))
    }

    // Model of the thread pool, "par" 2: the sides run as two threads, their
    // interleaving chosen by the checker.
    if crate::sx::param("par", 0) == 2 {
        struct Side<F, R>(Option<F>, Option<R>);
        extern "C" fn run<F: FnOnce() -> R, R>(p: *mut u8) -> *mut u8 {
            let s = unsafe { &mut *(p as *mut Side<F, R>) };
            s.1 = Some((s.0.take().unwrap())());
            p
        }
        fn start<F: FnOnce() -> R, R>(s: *mut Side<F, R>) -> u64 {
            crate::sx::spawn(run::<F, R>, s as *mut u8)
        }
        let b = call_b(oper_b);
        let mut side = Side(Some(move || b(true)), None);
        let t = start(&mut side);
        let ra = call_a(oper_a, false)();
        crate::sx::join(t);
        return (ra, side.1.take().unwrap());
    }
    // "par" 1: which side runs first and which side counts
    // as stolen is chosen by the checker ("par" set), else in order.
    // "par" 3: one of that many fixed sequences of such choices.
    let c = if crate::sx::param("par", 0) == 3 {
        sequence()
    } else if crate::sx::param("par", 0) != 0 {
        crate::sx::choose("split", 6)
    } else {
        0
    };
    let (a, b) = match c / 2 {
        0 => (false, false),
        1 => (false, true),
        _ => (true, true),
    };
    if c % 2 == 0 {
        let ra = call_a(oper_a, a)();
        let rb = call_b(oper_b)(b);
        (ra, rb)
    } else {
        let rb = call_b(oper_b)(b);
        let ra = call_a(oper_a, a)();
        (ra, rb)
    }
}

fn sequence() -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let mut k = NEXT.load(Relaxed);
    if k == 0 {
        k = 1 + 7919 * crate::sx::choose("schedule", crate::sx::param("long", 8) as u64);
    }
    k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    NEXT.store(k, Relaxed);
    (k >> 33) % 6
}
