//! C03: len is the written prefix: exact at rest, monotone, never too large
use crate::rt::*;
use orx_concurrent_vec::*;

// ---- sequential: len, is_empty, get, iteration and as_slice agree after every operation
fn quick_agree<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n: usize, id: u32) {
    chk(v.len() == n, id);
    chk(v.is_empty() == (n == 0), id + 1);
    chk(v.iter().count() == n, id + 2);
    chk(v.as_slice().len() == n, id + 3);
    chk(v.as_slice().is_empty() == (n == 0), id + 4);
    chk(v.get(n).is_none() && v.get_cloned(n).is_none(), id + 5);
    chk(n == 0 || v.get(n - 1).is_some() && v.get_cloned(n - 1).is_some(), id + 6);
}
fn agree<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n: usize, id: u32) {
    quick_agree(v, n, id);
    let i = any() as usize;
    chk(v.get(i).is_some() == (i < n), id + 7);
    chk(v.get_cloned(i).is_some() == (i < n), id + 8);
}
fn seq_len<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n0: usize, pre: u64, k: usize, maxn: u64) {
    agree(&v, n0, 1);
    let mut n = n0;
    for _ in 0..range(0, pre) {
        v.push(T::mk(n as u64));
        n += 1;
    }
    for _ in 0..k {
        match below(8) {
            0 => {
                v.push(T::mk(any()));
                n += 1;
            }
            1 => {
                v.push_for_idx(|i| T::mk(i as u64));
                n += 1;
            }
            2 => {
                let m = range(0, maxn);
                v.extend((0..m).map(|x| T::mk(x as u64)));
                n += m;
            }
            3 => {
                let m = range(0, maxn);
                v.extend_for_idx(|i| (0..m).map(move |x| T::mk((i + x) as u64)), m);
                n += m;
            }
            4 => {
                let m = range(0, maxn);
                v.extend_n_items((0..maxn).map(|x| T::mk(x as u64)), m);
                n += m;
            }
            // element operations while the element is in use
            5 => {
                if n > 0 {
                    let i = if flag() { 0 } else { n - 1 };
                    v[i].update(|x| {
                        *x = T::mk(7);
                        chk(v.len() == n, 30);
                        chk(v.iter().count() == n, 31);
                    });
                }
            }
            6 => {
                if n > 0 {
                    let i = if flag() { 0 } else { n - 1 };
                    v[i].map(|_| chk(v.len() == n && v.as_slice().len() == n && !v.is_empty(), 32));
                }
            }
            _ => {
                v.fill(T::mk(any()));
                if n > 1 {
                    v.swap(0, n - 1);
                }
            }
        }
        quick_agree(&v, n, 10);
    }
    agree(&v, n, 20);
    reach(1);
}
seq!(s_c03_l, seq_len(VL::<u64>::with_linear_growth(1, 6), 0, q(2, 4), 2, q(3, 4)));
seq!(s_c03_l2, seq_len(VL::<u64>::with_linear_growth(2, 3), 0, q(2, 4), 2, q(2, 4)));
seq!(s_c03_d, seq_len(pre(dbl::<u64>(), 3), 3, q(0, 2), 2, q(2, 4)));
seq!(s_c03_f, seq_len(VF::<u64>::with_fixed_capacity(13), 0, q(2, 4), 2, q(3, 4)));
seq!(s_c03_o, seq_len(VL::<Own>::with_linear_growth(1, 8), 0, q(2, 4), 2, q(2, 4)));
/// len is not sampled in between: the first call has to count everything, in any order of the two kinds of readers
fn late<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let n = range(0, hi);
    let a = range(0, n as u64);
    v.extend((0..a).map(|x| x as u64));
    if flag() {
        chk(v.len() == a, 1);
    }
    for i in a..n {
        v.push(i as u64);
    }
    if flag() {
        chk(v.iter().count() == n, 2);
    }
    chk(v.len() == n, 3);
    chk(v.get_cloned(n).is_none(), 4);
    reach(1);
}
seq!(s_c03_late_l, late(VL::<u64>::with_linear_growth(2, 8), q(10, 20)));
seq!(s_c03_late_d, late(dbl::<u64>(), q(14, 30)));
seq!(s_c03_late_f, late(VF::<u64>::with_fixed_capacity(31), q(8, 20)));

// ---- concurrent: growth against len
/// three observations in one thread: monotone, every counted position is readable
fn watch<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, n0: usize, max: usize) {
    let a = v.len();
    chk(a >= n0 && a <= max, 1);
    if a > 0 {
        chk(v.get_cloned(a - 1).is_some(), 2);
        chk(v.get(a - 1).is_some(), 3);
    }
    let b = v.len();
    chk(b >= a && b <= max, 4);
    reach((10 * a + b) as u32);
}
macro_rules! gl {
    ($n:literal, $ty:ty, $setup:expr, $n0:expr, $max:expr, $g:expr) => {
        conc2! { $n, $ty, $setup;
            |v: &$ty| { let g: fn(&$ty) = $g; g(v) },
            |v: &$ty| watch(v, $n0, $max);
            |v| { agree(&v, $max, 20); let x = v.push(7); chk(x == $max, 30); agree(&v, $max + 1, 40) } }
    };
}
gl! { "c03_p1", VL<u64>, l1(1), 1, 2, |v| { v.push(11); } }
gl! { "c03_p2", VL<u64>, l1(2), 2, 3, |v| { v.push(11); } }
gl! { "c03_p0", VL<u64>, l1(0), 0, 1, |v| { v.push(11); } }
gl! { "c03_pp", VL<u64>, l1(1), 1, 3, |v| { v.push(11); v.push(12); } }
gl! { "c03_ppd", VD<u64>, d1(3), 3, 5, |v| { v.push(11); v.push(12); } }
gl! { "c03_ppf", VF<u64>, f1(1, 5), 1, 3, |v| { v.push(11); v.push(12); } }
gl! { "c03_e", VL<u64>, l1(1), 1, 4, |v| { v.extend([11, 12, 13]); } }
gl! { "c03_ef", VF<u64>, f1(1, 5), 1, 4, |v| { v.extend([11, 12, 13]); } }
gl! { "c03_ei", VL<u64>, l1(1), 1, 3, |v| { v.extend_for_idx(|i| [i as u64, 12], 2); } }

/// a completed call whose predecessors have completed is counted at once by its own thread
fn own_count<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, n0: usize, x: u64) {
    let i = v.push(x);
    let n = v.len();
    if i == n0 {
        chk(n >= n0 + 1, 1);
        reach(1);
    }
    let j = v.push(x + 1);
    chk(j > i, 2);
    chk(v.len() >= n, 3);
}
conc2! { "c03_own", VL<u64>, l1(1); |v| own_count(v, 1, 11), |v| { out(1, v.push(21) as u64) }; |v| agree(&v, 4, 10) }
conc2! { "c03_ownf", VF<u64>, f1(0, 4); |v| own_count(v, 0, 11), |v| { out(1, v.push(21) as u64) }; |v| agree(&v, 3, 10) }
// three threads: two growing, one watching
conc2! { "c03_three", VL<u64>, l1(1); |v| { v.push(11); }, |v| { v.push(21); }, |v| {
    let a = v.len(); let b = v.len(); chk(a >= 1 && a <= b && b <= 3, 1); reach((10 * a + b) as u32) };
    |v| agree(&v, 3, 10) }
// two watching threads: both advance the cached length
conc2! { "c03_watch2", VL<u64>, l1(1); |v| { v.push(11); }, |v| { let a = v.len(); chk(a == 1 || a == 2, 1); out(1, a as u64) },
    |v| { let a = v.len(); let b = v.len(); chk(a <= b && b <= 2, 2); out(2, b as u64) };
    |v| { agree(&v, 2, 10); reach((got(1) * 10 + got(2)) as u32) } }

// ---- element operations in progress do not hide elements
fn three() -> VL<u64> {
    let v = lin();
    for i in 0..3 {
        v.push(i);
    }
    v
}
macro_rules! bl {
    ($n:literal, $g:expr) => {
        conc2! { $n, VL<u64>, three();
            |v: &VL<u64>| { let g: fn(&VL<u64>) = $g; g(v) },
            |v: &VL<u64>| { chk(v.len() == 3, 1); chk(!v.is_empty(), 2); chk(v.get(2).is_some(), 3); chk(v.iter().count() == 3, 4); };
            |v| agree(&v, 3, 20) }
    };
}
bl! { "c03_b_update", |v| v[0].update(|x| *x += 1) }
bl! { "c03_b_set", |v| v[1].set(7) }
bl! { "c03_b_replace", |v| { v[2].replace(7); } }
bl! { "c03_b_map", |v| { v[1].map(|x| *x); } }
bl! { "c03_b_cloned", |v| { v.get_cloned(0); } }
bl! { "c03_b_swap", |v| { v.swap(0, 2); } }
bl! { "c03_b_fill", |v| { v.fill(3); } }
bl! { "c03_b_eq", |v| { let _ = v[0] == v[1]; } }
bl! { "c03_b_find", |v| { v.index_of(&2); } }
bl! { "c03_b_len", |v| { chk(v.len() == 3, 9); } }

// ---- while growth calls of the same thread are in flight (user code inside growth calls)
seq!(s_c03_fly_l, crate::inflight::inflight::<u64, _>(lin(), 0, q(2, 4), crate::inflight::LEN));
seq!(s_c03_fly_lo, crate::inflight::inflight::<Own, _>(lin(), q(1, 0), q(2, 3), crate::inflight::LEN));
seq!(s_c03_fly_d, crate::inflight::inflight::<u64, _>(dbl(), q(3, 1), q(4, 5), crate::inflight::LEN));
seq!(s_c03_fly_f, crate::inflight::inflight::<u64, _>(VF::with_fixed_capacity(10), 0, q(1, 3), crate::inflight::LEN));

// ---- large and over-aligned elements
seq!(s_c03_b, seq_len(VL::<Big>::with_linear_growth(1, 8), 0, q(2, 3), q(1, 2) as usize, q(2, 4)));
seq!(s_c03_t, seq_len(VL::<Tri>::with_linear_growth(1, 8), 0, q(2, 3), q(1, 2) as usize, q(2, 4)));
