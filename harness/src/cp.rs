//! C14: checkpointed reversal of sequences.
use crate::sx;
use advantage::drivers::reverse_sequence;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(0);

/// A state: its value, and whether too many of them exist.
#[derive(Debug)]
struct St(u64);
impl St {
    fn new(v: u64) -> St {
        let n = LIVE.load(Relaxed) + 1;
        LIVE.store(n, Relaxed);
        // the permitted checkpoints and the state being worked on
        sx::check(n <= LIMIT.load(Relaxed) + 1, "C14.retained-states");
        St(v)
    }
}
impl Clone for St {
    fn clone(&self) -> St {
        St::new(self.0)
    }
}
impl Drop for St {
    fn drop(&mut self) {
        LIVE.store(LIVE.load(Relaxed) - 1, Relaxed);
    }
}
fn forward(v: u64) -> u64 {
    sx::uf(1, v, 0)
}
fn reverse(x: u64, right: u64) -> u64 {
    sx::uf(2, x, right)
}
fn identity(x: u64) -> u64 {
    sx::uf(3, x, 0)
}
/// any number of the range; one path for each
fn size(t: &str, lo: usize, hi: usize) -> usize {
    let v = sx::int(t, lo as u64, hi as u64);
    (lo..hi).find(|k| sx::fork(v == *k as u64)).unwrap_or(hi)
}
fn sizes() -> (usize, usize) {
    let lo = sx::param("lo", 0) as usize;
    let n = size("nsteps", lo, sx::param("n", 12) as usize);
    let c = size("ncheckpoints", 2, sx::param("c", 6) as usize);
    sx::shard((n * 64 + c) as u64);
    LIMIT.store(c as i64, Relaxed);
    (n, c)
}

crate::entries! {
    /// the whole reversal
    fn c14_reversal() {
        let (n, c) = sizes();
        let x0 = sx::int("x0", 0, u64::MAX);
        let steps = AtomicI64::new(0);
        let visits = AtomicI64::new(0);
        let got = reverse_sequence(
            St::new(x0),
            n,
            c,
            |mut x: St| {
                steps.store(steps.load(Relaxed) + 1, Relaxed);
                x.0 = forward(x.0);
                x
            },
            |x: St, r: u64| {
                visits.store(visits.load(Relaxed) + 1, Relaxed);
                reverse(x.0, r)
            },
            |x: St| {
                visits.store(visits.load(Relaxed) + 1, Relaxed);
                identity(x.0)
            },
        );
        let mut xs = vec![x0];
        for k in 0..n {
            xs.push(forward(xs[k]));
        }
        let mut want = identity(xs[n]);
        for k in (0..n).rev() {
            want = reverse(xs[k], want);
        }
        sx::check(got == want, "C14.reversed-composition");
        sx::check(visits.load(Relaxed) == n as i64 + 1, "C14.every-state-once");
        sx::check(LIVE.load(Relaxed) == 0, "C14.states-released");
        if n + 1 <= c {
            sx::check(steps.load(Relaxed) == n as i64, "C14.nothing-recomputed-when-all-fit");
        }
        // starting over for every state is the worst there is
        sx::check(steps.load(Relaxed) <= (n * (n + 1) / 2) as i64, "C14.no-worse-than-restarting");
        sx::obs_u("result", got);
        sx::reach("reversal");
    }

    /// Long sequences: the first sweep to the end and the reversal of the last
    /// few states.
    fn c14_long() {
        const N: [usize; 10] = [63, 64, 99, 100, 101, 255, 500, 1000, 1716, 3003];
        const C: [usize; 10] = [2, 3, 4, 5, 6, 7, 10, 20, 50, 200];
        let n = N[sx::choose("nsteps", sx::param("n", 10) as usize)];
        let c = C[sx::choose("ncheckpoints", 10)];
        sx::shard((n * 256 + c) as u64);
        LIMIT.store(c as i64, Relaxed);
        let x0 = sx::int("x0", 0, u64::MAX);
        let mut xs = vec![x0];
        for k in 0..n {
            xs.push(forward(xs[k]));
        }
        let tail = n.min(sx::param("tail", 4) as usize);
        let seen = AtomicI64::new(0);
        let arrive = |x: &St| {
            let k = seen.load(Relaxed);
            seen.store(k + 1, Relaxed);
            sx::check(x.0 == xs[n - k as usize], "C14.backwards-order");
            if k as usize == tail {
                sx::reach("long");
                sx::stop();
            }
        };
        reverse_sequence(
            St::new(x0),
            n,
            c,
            |mut x: St| {
                x.0 = forward(x.0);
                x
            },
            |x: St, _: u64| {
                arrive(&x);
                0
            },
            |x: St| {
                arrive(&x);
                0
            },
        );
        sx::check(false, "C14.every-state-once");
    }

    /// states that own memory, symbolic floating-point sequence
    fn c14_floats() {
        let (n, c) = sizes();
        let x0 = vec![sx::f64("x"), sx::f64("x")];
        let f = |x: &Vec<f64>| vec![x[1], x[0] * x[1]];
        let base = sx::live();
        let (bytes, start) = (sx::bytes(), x0.clone());
        let got = reverse_sequence(
            start,
            n,
            c,
            |x| f(&x),
            |x, r: Vec<f64>| vec![x[0] - r[0], x[1] * r[1]],
            |x| x,
        );
        let mut xs = vec![x0.clone()];
        for k in 0..n {
            let y = f(&xs[k]);
            xs.push(y);
        }
        let mut want = xs[n].clone();
        for k in (0..n).rev() {
            want = vec![xs[k][0] - want[0], xs[k][1] * want[1]];
        }
        sx::bits(got[0], want[0], "C14.reversed-composition");
        sx::bits(got[1], want[1], "C14.reversed-composition");
        drop((got, want, xs));
        sx::check(sx::live() == base && sx::bytes() == bytes, "C14.leak");
        sx::reach("floats");
    }

    /// fewer than two checkpoints are refused
    fn c14_too_few() {
        let c = sx::choose("ncheckpoints", 2);
        let n = sx::choose("nsteps", 4);
        LIMIT.store(100, Relaxed);
        let x = St::new(sx::int("x0", 0, u64::MAX));
        sx::expect_panic("C14.too-few-checkpoints");
        reverse_sequence(x, n, c, |x| x, |_, r: u64| r, |x: St| x.0);
    }
}
