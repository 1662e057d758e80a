//! C17: concurrent operations always make progress.  The engine asks the solver for every harness whether an execution
//! exists in which some thread waits forever (deadlock query); the asserts here only confirm that nothing was lost.
use crate::rt::*;
use orx_concurrent_vec::*;

fn grow<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, how: usize) {
    match how {
        0 => {
            v.push(1);
        }
        1 => {
            v.extend([1, 2]);
        }
        2 => {
            v.extend([1, 2, 3]);
        }
        3 => {
            v.push_for_idx(|i| i as u64);
        }
        4 => {
            v.extend_for_idx(|i| [i as u64, 5], 2);
        }
        _ => {
            v.extend([1, 2, 3, 4, 5]);
        }
    }
}
/// operations on the elements 0 and 1, which exist
fn access<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, how: usize) {
    match how {
        0 => v[0].update(|x| *x += 1),
        1 => chk(v.swap(0, 1), 1),
        2 => chk(v.swap(1, 0), 2),
        3 => {
            let _ = v[0] == v[1];
        }
        4 => {
            let _ = v[1] == v[0];
        }
        5 => {
            v[1].replace(7);
        }
        6 => {
            v[1].map(|x| *x);
        }
        7 => v[0].set(8),
        8 => v.fill(3),
        9 => v.fill_with(|i| i as u64),
        10 => chk(v.get_cloned(1).is_some(), 3),
        11 => chk(v.get(0).map(|x| x.cloned()).is_some(), 4),
        12 => {
            let _ = v[0] == v[0];
        }
        13 => {
            let _ = v[0] == 5;
        }
        _ => {
            let mut s = 0;
            for x in v.iter_cloned() {
                s ^= x
            }
            let _ = s;
        }
    }
}
fn read<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, how: usize) {
    match how {
        0 => chk(v.len() >= 2, 5),
        1 => {
            let mut n = 0;
            for x in v.iter() {
                x.map(|_| ());
                n += 1;
            }
            chk(n >= 2, 6);
        }
        2 => {
            v.get_cloned(2);
        }
        3 => {
            v.get(3).map(|x| x.cloned());
        }
        4 => chk(!v.is_empty(), 7),
        5 => {
            v.reduce(|a, b| a ^ b);
        }
        6 => {
            v.index_of(&u64::MAX);
        }
        7 => {
            let s = v.as_slice();
            let n = s.len();
            chk(s.get(n - 1).is_some(), 8);
        }
        _ => {
            chk(v.capacity() <= v.maximum_capacity(), 9);
        }
    }
}
fn end<P: IntoConcurrentPinnedVec<CE<u64>>>(v: Box<CV<u64, P>>, n: usize) {
    chk(v.len() == n, 90);
    v[0].set(1);
    v[1].set(1);
    v[n - 1].set(1);
    chk(v.swap(0, n - 1), 91);
}
const G: [usize; 6] = [1, 2, 3, 1, 2, 5];

// growth ∥ growth at every distance from a fragment boundary
macro_rules! gg {
    ($($n:literal $ty:ty, $mk:expr, $k:expr;)*) => {
        $( conc2! { $n, $ty, $mk; |v| { let h = below($k); out(1, h as u64); grow(v, h) }, |v| { let h = below(q(3, $k)); out(2, h as u64); grow(v, h) };
            |v| { let n = v.len(); let m = n - G[g(1)] - G[g(2)]; reach(m as u32); end(v, n) } } )*
    };
}
gg! {
    "c17_gg_l0" VL<u64>, l1(0), 5;
    "c17_gg_l1" VL<u64>, l1(1), 5;
    "c17_gg_l2" VL<u64>, l1(2), 5;
    "c17_gg_d3" VD<u64>, d1(3), q(5, 6);
    "c17_gg_d4" VD<u64>, d1(4), q(5, 6);
    "c17_gg_f" VF<u64>, f1(1, 7), 5;
}
// growth by two calls each
macro_rules! g2 {
    ($($n:literal $ty:ty, $mk:expr;)*) => {
        $( conc2! { $n, $ty, $mk; |v| { grow(v, 0); grow(v, 0) }, |v| { grow(v, 1) }; |v| { let n = v.len(); end(v, n) } } )*
    };
}
g2! {
    "c17_g2_l1" VL<u64>, l1(1);
    "c17_g2_l2" VL<u64>, l1(2);
    "c17_g2_d3" VD<u64>, d1(3);
}
// three threads
macro_rules! g3 {
    ($($n:literal $ty:ty, $mk:expr, $len:expr;)*) => {
        $( conc2! { $n, $ty, $mk; |v| grow(v, 0), |v| grow(v, 0), |v| grow(v, 0); |v| end(v, $len) } )*
    };
}
g3! {
    "c17_g3_l0" VL<u64>, l1(0), 3;
    "c17_g3_l1" VL<u64>, l1(1), 4;
    "c17_g3_l2" VL<u64>, l1(2), 5;
    "c17_g3_d3" VD<u64>, d1(3), 6;
    "c17_g3_d4" VD<u64>, d1(4), 7;
}
conc2! { "c17_g3_le", VL<u64>, l1(2); |v| grow(v, 0), |v| grow(v, 1), |v| grow(v, 0); |v| end(v, 6) }
conc2! { "c17_g3_len", VL<u64>, l1(2); |v| grow(v, 0), |v| grow(v, 0), |v| read(v, 0); |v| end(v, 4) }
conc2! { "c17_g3_swap", VL<u64>, l1(3); |v| { v.swap(0, 1); }, |v| { v.swap(1, 2); }, |v| { v.swap(2, 0); }; |v| end(v, 3) }
conc2! { "c17_g3_eq", VL<u64>, l1(3); |v| { let _ = v[0] == v[1]; }, |v| { let _ = v[1] == v[2]; }, |v| { let _ = v[2] == v[0]; }; |v| end(v, 3) }
conc2! { "c17_g3_mix", VL<u64>, l1(2); |v| { v.swap(0, 1); }, |v| { let _ = v[1] == v[0]; }, |v| v.fill(4); |v| end(v, 2) }
// element accesses ∥ element accesses (any pair)
conc2! { "c17_aa1", VL<u64>, l1(2); |v| access(v, below(5)), |v| access(v, below(15)); |v| end(v, 2) }
conc2! { "c17_aa2", VL<u64>, l1(2); |v| access(v, 5 + below(5)), |v| access(v, below(15)); |v| end(v, 2) }
conc2! { "c17_aa3", VL<u64>, l1(2); |v| access(v, 10 + below(5)), |v| access(v, below(15)); |v| end(v, 2) }
conc2! { "c17_aad", VD<u64>, d1(2); |v| access(v, below(8)), |v| access(v, below(8)); |v| end(v, 2) }
conc2! { "c17_aaf", VF<u64>, f1(2, 3); |v| access(v, below(8)), |v| access(v, below(8)); |v| end(v, 2) }
// two in a row
conc2! { "c17_a2", VL<u64>, l1(2); |v| { access(v, below(5)); access(v, below(5)) }, |v| { access(v, 1 + below(4)) }; |v| end(v, 2) }
// element accesses and reads ∥ growth
conc2! { "c17_ag", VL<u64>, l1(2); |v| access(v, below(15)), |v| { let h = below(3); out(1, h as u64); grow(v, h) }; |v| end(v, 2 + G[g(1)]) }
conc2! { "c17_agd", VD<u64>, d1(4); |v| access(v, below(15)), |v| grow(v, 0); |v| end(v, 5) }
conc2! { "c17_rg", VL<u64>, l1(2); |v| read(v, below(9)), |v| { let h = below(3); out(1, h as u64); grow(v, h) }; |v| end(v, 2 + G[g(1)]) }
conc2! { "c17_rgd", VD<u64>, d1(4); |v| read(v, below(9)), |v| { grow(v, 0) }; |v| end(v, 5) }
conc2! { "c17_rgf", VF<u64>, f1(2, 5); |v| read(v, below(9)), |v| { grow(v, 1) }; |v| end(v, 4) }
conc2! { "c17_ra", VL<u64>, l1(3); |v| read(v, below(9)), |v| access(v, below(15)); |v| end(v, 3) }
// whole vectors and slices
conc2! { "c17_ww", (VD<u64>, VD<u64>), (d1(2), d1(2)); |c| { let _ = c.0 == c.1; }, |c| { let _ = c.1 == c.0; }; |c| chk(c.0 == c.1, 1) }
conc2! { "c17_self", VD<u64>, d1(2); |v| { let _ = *v == *v; }, |v| { v.swap(0, 1); }; |v| end(v, 2) }
conc2! { "c17_sl", VL<u64>, l1(3); |v| { let s = v.slice(1..); s.swap(0, 1); s.fill(1) }, |v| { v.slice(..2).fill_with(|i| i as u64); }; |v| end(v, 3) }
conc2! { "c17_cl", VD<u64>, d1(3); |v| { let c = v.clone(); chk(c.len() >= 3, 1) }, |v| { v.push(1); v.swap(0, 3); }; |v| end(v, 4) }
conc2! { "c17_map", VL<u64>, l1(2); |v| { let s: u64 = v.map(|x| *x).sum(); let _ = s; let _ = v.fold(0, |a, b| a ^ *b); }, |v| { v.push(1); v[0].set(1); }; |v| end(v, 3) }

// ---- a thread alone: at every fill level every call returns, nobody else provides anything
fn alone<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, w: VD<u64>, cap: usize, hi: usize) {
    let k = range(0, cap as u64);
    match below(3) {
        0 => (0..k).for_each(|i| { v.push(i as u64); }),
        1 => { v.extend((0..k).map(|i| i as u64)); }
        _ => { v.extend_for_idx(|b| (b..b + k).map(|i| i as u64), k); }
    }
    let m = range(0, hi.min(cap - k) as u64);
    match below(5) {
        0 => (0..m).for_each(|_| { v.push(1); }),
        1 => (0..m).for_each(|_| { v.push_for_idx(|i| i as u64); }),
        2 => { v.extend((0..m).map(|i| i as u64)); }
        3 => { v.extend_n_items((0..m).map(|i| i as u64), m); }
        _ => { v.extend_for_idx(|b| (b..b + m).map(|i| i as u64), m); }
    }
    chk(v.len() == k + m && v.iter().count() == k + m && v.iter_cloned().count() == k + m, 1);
    if k + m > 0 {
        let i = k + m - 1;
        chk(v.swap(0, i) && v.swap(i, 0), 2);
        v[i].set(3);
        v[i].update(|x| *x += 1);
        chk(v[i].replace(5) == 4 && v[i] == 5 && v[i] == v[i], 3);
        let _ = v[0] == v[i];
        let _ = v[i] == v[0];
        v.fill(7);
        chk(v.index_of(&7) == Some(0), 4);
        w.push(v[i].cloned());
        chk(w[0] == v[i] && v[i] == w[0], 5);
        reach(1);
    }
    reach(2);
}
seq!(s_c17_alone_l, alone(lin(), dbl(), 8, 4));
seq!(s_c17_alone_d, alone(dbl(), dbl(), q(13, 29) as usize, q(3, 10) as usize));
seq!(s_c17_alone_f, alone(fix(), dbl(), 5, 5));

// ---- user code which uses the vector from inside a call: no call holds an element or the growth of the vector while
// it evaluates a closure which is not given an element, and only the current element while it evaluates one which is
fn inside<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, w: VD<u64>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let n = l.n;
    let j = below(n as u64);
    let how = below(19);
    let any_elem = |_: usize| {
        let x = v[j].cloned();
        v[j].set(x);
        let y = v.iter_cloned().count() as u64 ^ v.fold(0, |a, b| a ^ *b);
        chk(v.swap(j, 0) && v.swap(0, j), 1);
        let _ = v[0] == v[j];
        x ^ y
    };
    // the other elements
    let other = |i: usize| {
        if i != j {
            let x = v[j].cloned();
            v[j].update(|y| *y = x);
            let _ = v[j].replace(x);
            chk(v[j] == x && v.get_cloned(j) == Some(x), 2);
        }
    };
    let mut k = 0;
    match how {
        0 => v.fill_with(any_elem),
        1 => v.slice(..).fill_with(any_elem),
        2 => {
            v.push_for_idx(any_elem);
        }
        3 => {
            v.extend_for_idx(|b| [any_elem(b), any_elem(b + 1)], 2);
        }
        4 => {
            v.extend((0..2).map(|i| any_elem(i)));
        }
        5 => {
            v.extend_n_items((0..2).map(|i| any_elem(i)), 2);
        }
        6 => {
            v.fold(0, |a, b| { other(k); k += 1; a ^ *b });
        }
        7 => {
            v.slice(..).fold(0, |a, b| { other(k); k += 1; a ^ *b });
        }
        8 => {
            // the elements before the current one have been left
            v.reduce(|a, b| { k += 1; if j < k { other(k) } a ^ *b });
        }
        9 => {
            // and those after it have not been entered
            v.reduce(|a, b| { k += 1; if j > k { other(k) } a ^ *b });
        }
        10 => {
            v.slice(..).reduce(|a, b| { k += 1; other(k); a ^ *b });
        }
        11 => {
            // between two elements none is held
            for x in v.map(|b| { other(k); k += 1; *b }) { any_elem(0); let _ = x; }
        }
        12 => {
            for x in v.filter(|_| { other(k); k += 1; true }) { any_elem(0); x.set(1); }
        }
        13 => {
            for x in v.iter() { any_elem(0); x.update(|x| *x ^= 1); }
        }
        14 => {
            for x in v.slice(..).iter_cloned() { any_elem(0); let _ = x; }
        }
        15 => v[0].update(|x| { other(0); *x ^= 1 }),
        16 => {
            v[n - 1].map(|x| { other(n - 1); *x });
        }
        17 => {
            v.iter_cloned().for_each(|x| { any_elem(0); w.push(x); });
        }
        _ => {
            for x in v.iter_cloned() { w.push(x); }
            for x in w.iter_cloned() { v.push(x); }
            for x in v.slice(..n).iter_cloned() { v.push(x); }
        }
    }
    v[j].set(3);
    v[0].set(3);
    chk(v.len() >= n && v.index_of(&3) == Some(0), 3);
    reach(how as u32);
}
seq!(s_c17_inside_l, inside(lin(), dbl(), q(2, 1), q(2, 2)));
seq!(s_c17_inside_d, inside(dbl(), dbl(), q(3, 1), q(3, 4)));
seq!(s_c17_inside_f, inside(VF::with_fixed_capacity(9), dbl(), q(2, 1), q(2, 3)));

// ---- user code which waits for an element from inside an access to another one (in descending order), against every
// operation which needs one element at a time: those never hold an element while they wait for the next one
fn one_at_a_time<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, how: usize) {
    match how {
        0 => drop(v.reduce(|a, b| a ^ b)),
        1 => drop(v.slice(..).reduce(|a, b| a ^ b)),
        2 => drop(v.fold(0, |a, b| a ^ b)),
        3 => v.fill(5),
        4 => v.fill_with(|i| i as u64),
        5 => drop(v.iter_cloned().count()),
        6 => drop(v.clone_to_vec()),
        7 => drop(v.index_of(&u64::MAX)),
        8 => drop(v.contains(&u64::MAX)),
        9 => drop(v.iter().count()),
        10 => drop(v.filter(|x| *x > 0).count()),
        11 => drop(v.map(|x| *x).count()),
        12 => drop(v.slice(..).slice(..).fill(5)),
        13 => drop(v.slice(..).iter_cloned().count()),
        14 => drop((v.get_cloned(0), v.get_copied(1))),
        15 => for e in v.iter() { e.update(|x| *x += 1) },
        16 => v.slice(..).fill_with(|i| i as u64),
        17 => drop(v.slice(..).clone_to_vec()),
        18 => drop(v.slice(..).index_of(&u64::MAX)),
        _ => drop(v.clone()),
    }
}
fn nested<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, up: bool) {
    let (i, j) = if up { (0, 1) } else { (1, 0) };
    match below(3) {
        0 => drop(v[i].map(|x| *x ^ v[j].cloned())),
        1 => v[i].update(|x| *x = v[j].replace(*x)),
        _ => v[i].update(|x| v[j].set(*x)),
    }
}
conc2! { "c17_nest_1", VL<u64>, l1(2); |v| nested(v, false), |v| one_at_a_time(v, below(7)); |v| end(v, 2) }
conc2! { "c17_nest_2", VL<u64>, l1(2); |v| nested(v, false), |v| one_at_a_time(v, 7 + below(6)); |v| end(v, 2) }
conc2! { "c17_nest_3", VL<u64>, l1(2); |v| nested(v, false), |v| one_at_a_time(v, 13 + below(7)); |v| end(v, 2) }
conc2! { "c17_nest_4", VL<u64>, l1(2); |v| nested(v, true), |v| one_at_a_time(v, below(10)); |v| end(v, 2) }
conc2! { "c17_nest_5", VL<u64>, l1(2); |v| nested(v, true), |v| one_at_a_time(v, 10 + below(10)); |v| end(v, 2) }
conc2! { "c17_nest_e", VD<u64>, d1(2); |v| nested(v, flag()), |v| { let _ = match below(3) { 0 => *v == [100, 101], 1 => v.slice(..) == [100, 101], _ => { let r: &[u64] = &[100, 7]; *v == *r } }; }; |v| end(v, 2) }
conc2! { "c17_nest_g", VL<u64>, l1(2); |v| nested(v, flag()), |v| { let h = below(3); out(1, h as u64); grow(v, h) }; |v| end(v, 2 + G[g(1)]) }
// user code of a growth call which waits for an element, against an access whose user code reads the vector
conc2! { "c17_nest_u", VL<u64>, l1(2); |v| { v.push_for_idx(|_| v[0].cloned()); }, |v| { v[0].update(|x| { *x = v.len() as u64 ^ v[1].cloned() }); }; |v| end(v, 3) }
