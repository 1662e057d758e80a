//! C13: exceeding the maximum capacity fails cleanly
use crate::rt::*;
use orx_concurrent_vec::*;

/// doubling growth with a single fragment of 4 elements, two fragments of 4 and 8
fn dsmall<T>(k: usize) -> VD<T> {
    VD::from(PD::<T>::with_doubling_growth_and_fragments_capacity(k))
}
fn caps<T, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, max: usize, id: u32) {
    chk(v.maximum_capacity() == max, id);
    chk(v.capacity() <= max && v.len() <= v.capacity(), id + 1);
}
/// one growth call which asks for m positions
fn grow<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, how: usize, m: usize, x: u64) -> Option<usize> {
    let mut r = None;
    panics(|| {
        r = Some(match how {
            0 => v.push(T::mk(x)),
            1 => v.push_for_idx(|_| T::mk(x)),
            2 => v.extend((0..m).map(|i| T::mk(x ^ i as u64))),
            3 => v.extend_for_idx(|_| (0..m).map(|i| T::mk(x ^ i as u64)), m),
            _ => v.extend_n_items((0..m).map(|i| T::mk(x ^ i as u64)), m),
        })
    });
    r
}
/// up to three growth calls with arbitrary sizes: a call succeeds iff its positions fit (after a failed call of
/// several items the reserved positions might be lost for the others); nothing else changes
fn calls<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, max: usize, lo: u64, k: u64) {
    let mut l = filled(&v, lo, max as u64);
    caps(&v, max, 1);
    let mut lost = false;
    for _ in 0..k {
        let how = below(5);
        let m = if how < 2 { 1 } else { range(0, q(3, 4)) };
        let x = any();
        let r = grow(&v, how, m, x);
        let fits = l.n + m <= max;
        match r {
            Some(i) => {
                chk(fits && (i == l.n || m == 0), 3);
                for j in 0..m {
                    l.push(x ^ j as u64);
                }
                reach(1);
            }
            None => {
                chk(!fits || lost, 5);
                lost = true;
                reach(2);
            }
        }
        caps(&v, max, 6);
        chk(v.len() == l.n, 8);
    }
    same(&v, l.s(), 10);
    uses(v, l, max);
    chk(live() == 0, 9);
}
/// everything still works with what was added
fn uses<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut v: CV<T, P>, mut l: List, max: usize) {
    let x = any();
    let s = v.as_slice();
    chk(s.len() == l.n && s.get(l.n).is_none(), 20);
    if l.n > 0 {
        let i = below(l.n as u64);
        v[i].set(T::mk(x));
        l.d[i] = x;
    }
    match below(6) {
        0 => {
            let o = v.to_vec();
            chk(o.len() == l.n, 21);
            for i in 0..l.n {
                chk(o[i].val() == l.d[i], 22);
            }
        }
        1 => {
            let mut k = 0;
            for e in v {
                chk(k < l.n && e.val() == l.d[k], 23);
                k += 1;
            }
            chk(k == l.n, 24);
        }
        2 => {
            let w = CV::<T, P>::from(v.into_inner());
            same(&w, l.s(), 30);
            // the new vector has its positions back
            let r = grow(&w, 0, 1, x);
            chk(r == if l.n < max { Some(l.n) } else { None }, 25);
        }
        3 => {
            v.clear();
            chk(v.len() == 0 && v.maximum_capacity() == max, 26);
            let r = grow(&v, 2, max, x);
            chk(r == Some(0) && v.len() == max, 27);
            chk(grow(&v, 0, 1, x).is_none() && v.len() == max, 28);
        }
        4 => {
            for i in 0..l.n {
                chk(unsafe { v.get_ref(i) }.map(|r| r.val()) == Some(l.d[i]), 29);
            }
            chk(v.get_raw(l.n).is_none() && v.get_raw_mut(l.n).is_none() && v.get_cloned(l.n).is_none(), 40);
            let mut k = 0;
            for e in unsafe { v.iter_ref() } {
                chk(k < l.n && e.val() == l.d[k], 46);
                k += 1;
            }
            chk(k == l.n && unsafe { v.iter_mut() }.count() == l.n, 47);
            v.fill_with(|_| T::mk(x));
            let mut k = 0;
            for e in v.iter_cloned() {
                chk(e.val() == x, 41);
                k += 1;
            }
            chk(k == l.n, 42);
        }
        _ => drop(v),
    }
}
seq!(s_c13_calls_l, calls::<u64, _>(VL::with_linear_growth(1, 2), 4, q(3, 0), 2));
seq!(s_c13_calls_lo, calls::<Own, _>(VL::with_linear_growth(1, 2), 4, q(4, 0), 2));
seq!(s_c13_calls_f, calls::<u64, _>(VF::with_fixed_capacity(3), 3, q(1, 0), q(2, 3)));
seq!(s_c13_calls_fo, calls::<Own, _>(VF::with_fixed_capacity(2), 2, 0, q(2, 3)));
seq!(s_c13_calls_d, calls::<u64, _>(dsmall(1), 4, q(4, 0), 2));
seq!(s_c13_calls_do, calls::<Own, _>(dsmall(1), 4, q(4, 1), 2));
seq!(s_c13_calls_f0, calls::<Own, _>(VF::with_fixed_capacity(0), 0, 0, q(2, 3)));
seq!(s_c13_calls_l1, calls::<u64, _>(VL::with_linear_growth(1, 1), 2, 0, q(2, 3)));

/// the capacity follows the fill level and never passes the maximum
fn level<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, max: usize) {
    caps(&v, max, 1);
    let mut n = 0;
    let step = range(1, 3);
    while n + step <= max {
        let c = v.capacity();
        chk(v.extend((0..step).map(|i| i as u64)) == n, 3);
        n += step;
        chk(v.capacity() >= c && v.capacity() >= n, 4);
        caps(&v, max, 5);
    }
    chk(grow(&v, 2, max - n + 1, 0).is_none() && v.len() == n, 7);
    caps(&v, max, 8);
}
seq!(s_c13_level_l, level(VL::with_linear_growth(1, 3), 6));
seq!(s_c13_level_l2, level(VL::with_linear_growth(2, 2), 8));
seq!(s_c13_level_f, level(VF::with_fixed_capacity(5), 5));
seq!(s_c13_level_d, level(dsmall(2), 12));

/// absurd numbers of items
fn huge<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, max: usize) {
    let mut l = filled(&v, 0, 2);
    let m = any() as usize;
    assume(m > max);
    let x = any();
    let p = match below(2) {
        0 => panics(|| {
            v.extend_n_items(core::iter::repeat(x), m);
        }),
        _ => panics(|| {
            v.extend_for_idx(|_| [x], m);
        }),
    };
    chk(p, 1);
    same(&v, l.s(), 10);
    caps(&v, max, 2);
    chk(grow(&v, 0, 1, x) == if l.n < max { Some(l.n) } else { None }, 4);
    if l.n < max {
        l.push(x);
    }
    same(&v, l.s(), 20);
}
seq!(s_c13_huge_l, huge(VL::with_linear_growth(1, 2), 4));
seq!(s_c13_huge_f, huge(VF::with_fixed_capacity(3), 3));
seq!(s_c13_huge_d, huge(dsmall(2), 12));
seq!(s_c13_huge_dd, huge(dbl(), dbl::<u64>().maximum_capacity()));

// ---- threads race for the last positions: each call ends (with a panic or a position), the successful ones get
// ---- the positions in front, and what they added stays
const NO: u64 = 77;
fn put<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, slot: u64, how: usize, m: usize, x: u64) {
    let r = grow(v, how, m, x);
    out(slot, r.map(|i| i as u64).unwrap_or(NO));
}
fn after<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: Box<CV<T, P>>, n: usize, max: usize, sizes: &[usize]) {
    // positions of the successful calls
    let mut ok = 0;
    for (k, m) in sizes.iter().enumerate() {
        let s = got(k as u64 + 1);
        if s != NO {
            ok += m;
            let s = s as usize;
            chk(s >= n && s + m <= max, 1);
            for j in 0..*m {
                chk(v[s + j].map(|x| x.val()) == (10 * (k as u64 + 1)) ^ j as u64, 2);
            }
        }
    }
    chk(v.len() == n + ok, 3);
    for i in 0..n {
        chk(v[i].map(|x| x.val()) == 100 + i as u64, 4);
    }
    caps(&v, max, 5);
    reach(ok as u32);
    let mut v = unbox(v);
    match below(4) {
        0 => {
            let x = v.to_vec();
            chk(x.len() == n + ok, 7);
        }
        1 => drop(v),
        2 => {
            chk(v.into_iter().count() == n + ok, 8);
        }
        _ => {
            v.clear();
            chk(v.len() == 0 && grow(&v, 2, max, 1) == Some(0), 9);
            drop(v)
        }
    }
    chk(live() == 0, 10);
}
conc2! { "c13_f_mp", VF<Own>, pre(VF::with_fixed_capacity(2), 1); |v| put(v, 1, 0, 1, 10), |v| put(v, 2, 0, 1, 20);
    |v| { chk((got(1) == 1 && got(2) == NO) || (got(2) == 1 && got(1) == NO), 90); after(v, 1, 2, &[1, 1]) } }
conc2! { "c13_l_mp", VL<Own>, pre(VL::with_linear_growth(1, 2), 3); |v| put(v, 1, 0, 1, 10), |v| put(v, 2, 1, 1, 20);
    |v| { chk((got(1) == 3 && got(2) == NO) || (got(2) == 3 && got(1) == NO), 90); after(v, 3, 4, &[1, 1]) } }
conc2! { "c13_lg_mp", VL<u64>, pre(VL::with_linear_growth(1, 2), 2); |v| put(v, 1, 0, 1, 10), |v| put(v, 2, 2, 2, 20);
    |v| after(v, 2, 4, &[1, 2]) }
conc2! { "c13_d_mp", VD<u64>, pre(dsmall(1), 3); |v| put(v, 1, 0, 1, 10), |v| put(v, 2, 0, 1, 20);
    |v| { chk((got(1) == 3 && got(2) == NO) || (got(2) == 3 && got(1) == NO), 90); after(v, 3, 4, &[1, 1]) } }
conc2! { "c13_e_mp", VF<u64>, pre(VF::with_fixed_capacity(3), 1); |v| put(v, 1, 2, 2, 10), |v| put(v, 2, 3, 2, 20);
    |v| { chk((got(1) == 1 && got(2) == NO) || (got(2) == 1 && got(1) == NO), 90); after(v, 1, 3, &[2, 2]) } }
conc2! { "c13_f3_mp", VF<u64>, pre(VF::with_fixed_capacity(2), 0); |v| put(v, 1, 0, 1, 10), |v| put(v, 2, 0, 1, 20), |v| put(v, 3, 0, 1, 30);
    |v| { chk((got(1) == NO) as u32 + (got(2) == NO) as u32 + (got(3) == NO) as u32 == 1, 90); after(v, 0, 2, &[1, 1, 1]) } }
// readers meanwhile
conc2! { "c13_len_mp", VF<u64>, pre(VF::with_fixed_capacity(2), 1); |v| { put(v, 1, 0, 1, 10); put(v, 2, 0, 1, 20) }, |v| { let n = v.len(); chk(n == 1 || n == 2, 1); chk(v.capacity() == 2, 2); out(3, n as u64) };
    |v| { reach(10 + got(3) as u32); chk(got(1) == 1 && got(2) == NO, 90); after(v, 1, 2, &[1, 1]) } }
conc2! { "c13_get_mp", VL<Own>, pre(VL::with_linear_growth(1, 1), 1); |v| { put(v, 1, 2, 2, 10); }, |v| { chk(v.get_cloned(1).is_none() && v.get(1).is_none() && v.get_cloned(2).is_none(), 1); let n = v.len(); chk(n == 1, 2) };
    |v| { chk(got(1) == NO, 90); after(v, 1, 2, &[2]) } }

// ---- large and over-aligned elements
seq!(s_c13_calls_bl, calls::<Big, _>(VL::with_linear_growth(1, 2), 4, q(4, 0), q(1, 2)));
seq!(s_c13_calls_tf, calls::<Tri, _>(VF::with_fixed_capacity(2), 2, 0, q(1, 2)));
