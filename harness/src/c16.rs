//! C16: reserve_maximum_capacity raises the limit and keeps the contents
use crate::rt::*;
use orx_concurrent_vec::*;

fn dsmall<T>(k: usize) -> VD<T> {
    VD::from(PD::<T>::with_doubling_growth_and_fragments_capacity(k))
}
/// at any fill level, up to `times` times with arbitrary requests, growth in between and afterwards up to the limit
fn reserve<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut v: CV<T, P>, lo: u64, hi: u64, more: u64, times: u64) {
    let mut l = filled(&v, lo, hi);
    if flag() {
        v.clear();
        l = List::new();
    }
    for _ in 0..times {
        let before = v.maximum_capacity();
        let req = range(0, before as u64 + more);
        let r = v.reserve_maximum_capacity(req);
        chk(r == v.maximum_capacity(), 1);
        chk(r >= req && r >= before, 2);
        chk(v.capacity() <= r, 3);
        same(&v, l.s(), 10);
        let i = any() as usize;
        assume(i >= l.n);
        chk(v.get_raw(i).is_none(), 4);
        reach((req > before) as u32);
        // growth, one by one or at once
        let m = range(0, 2);
        if l.n + m <= r {
            let x = any();
            if flag() {
                for j in 0..m {
                    chk(v.push(T::mk(x ^ j as u64)) == l.n, 5);
                    l.push(x ^ j as u64);
                }
            } else {
                chk(v.extend((0..m).map(|j| T::mk(x ^ j as u64))) == l.n, 6);
                for j in 0..m {
                    l.push(x ^ j as u64);
                }
            }
        }
    }
    same(&v, l.s(), 30);
    // up to the new maximum
    let max = v.maximum_capacity();
    let x = any();
    let n = l.n;
    if max <= 12 {
        if flag() {
            for j in n..max {
                chk(v.push(T::mk(x ^ j as u64)) == j, 7);
                l.push(x ^ j as u64);
            }
        } else {
            chk(v.extend((n..max).map(|j| T::mk(x ^ j as u64))) == n, 8);
            for j in n..max {
                l.push(x ^ j as u64);
            }
        }
        chk(v.len() == max, 9);
        chk(panics(|| { v.push(T::mk(x)); }), 50);
        reach(10);
    }
    same(&v, l.s(), 40);
    match below(3) {
        0 => drop(v),
        1 => {
            let o = v.to_vec();
            chk(o.len() == l.n, 51);
            for i in 0..l.n {
                chk(o[i].val() == l.d[i], 52);
            }
        }
        _ => {
            v.clear();
            chk(v.len() == 0 && v.maximum_capacity() == max, 53);
            drop(v);
        }
    }
    chk(live() == 0, 54);
}
seq!(s_c16_res_l, reserve::<u64, _>(VL::with_linear_growth(1, 2), 0, q(4, 4), 3, 1));
seq!(s_c16_res_l2, reserve::<u64, _>(VL::with_linear_growth(1, 1), q(2, 0), 2, q(1, 3), 2));
seq!(s_c16_res_l4, reserve::<u64, _>(VL::with_linear_growth(2, 1), q(3, 0), 4, q(5, 8), q(1, 2)));
seq!(s_c16_res_f, reserve::<u64, _>(VF::with_fixed_capacity(3), 0, 3, 3, 1));
seq!(s_c16_res_f2, reserve::<u64, _>(VF::with_fixed_capacity(1), 0, 1, 2, 2));
seq!(s_c16_res_f0, reserve::<u64, _>(VF::with_fixed_capacity(0), 0, 0, q(2, 3), 2));
seq!(s_c16_res_d, reserve::<u64, _>(dsmall(1), 0, 4, q(8, 9), 1));
seq!(s_c16_res_d2, reserve::<u64, _>(dsmall(1), q(3, 0), 4, q(5, 9), q(1, 2)));
seq!(s_c16_res_d5, reserve::<u64, _>(dsmall(2), q(4, 0), q(5, 9), 1, 1));
seq!(s_c16_res_lo, reserve::<Own, _>(VL::with_linear_growth(1, 2), q(2, 0), q(4, 4), 2, q(1, 2)));
seq!(s_c16_res_fo, reserve::<Own, _>(VF::with_fixed_capacity(2), 0, 2, 2, q(1, 2)));
seq!(s_c16_res_do, reserve::<Own, _>(dsmall(1), q(3, 0), 4, q(3, 9), 1));
/// the default storage is at its limit from the beginning
fn limit(hi: u64) {
    let mut v = dbl::<u64>();
    let l = filled(&v, 0, hi);
    let max = v.maximum_capacity();
    let req = any() as usize;
    assume(req <= max);
    chk(v.reserve_maximum_capacity(req) == max && v.maximum_capacity() == max, 1);
    same(&v, l.s(), 10);
    chk(v.push(1) == l.n, 2);
}
seq!(s_c16_limit, limit(q(5, 13)));
/// after a growth call which did not fit, the reservation makes room
fn failed<P: IntoConcurrentPinnedVec<CE<Own>>>(mut v: CV<Own, P>, max: u64, lo: u64) {
    let mut l = filled(&v, lo, max);
    let m = max as usize - l.n + 1;
    let x = any();
    let p = panics(|| {
        if m == 1 {
            v.push(own(x));
        } else {
            v.extend((0..m).map(own_));
        }
    });
    chk(p, 1);
    let req = range(0, max + 2);
    let r = v.reserve_maximum_capacity(req);
    chk(r >= req && r >= max as usize && r == v.maximum_capacity(), 2);
    same(&v, l.s(), 10);
    let room = r - l.n;
    chk(v.extend((0..room).map(own_)) == l.n, 3);
    for i in 0..room {
        l.push(i as u64);
    }
    same(&v, l.s(), 20);
    drop(v);
    chk(live() == 0, 4);
}
fn own_(i: usize) -> Own {
    own(i as u64)
}
seq!(s_c16_failed_l, failed(VL::with_linear_growth(1, 2), 4, q(2, 0)));
seq!(s_c16_failed_f, failed(VF::with_fixed_capacity(2), 2, 0));

// ---- before and after threads
fn end<P: IntoConcurrentPinnedVec<CE<Own>>>(v: Box<CV<Own, P>>, n: usize) {
    let mut v = unbox(v);
    let mut d = [0; 12];
    for i in 0..n {
        d[i] = v[i].map(|x| x.val());
    }
    let max = v.maximum_capacity();
    let r = v.reserve_maximum_capacity(max + 2);
    chk(r >= max + 2 && r == v.maximum_capacity(), 1);
    chk(v.len() == n, 2);
    for i in 0..n {
        chk(v[i].map(|x| x.val()) == d[i], 3);
    }
    for i in n..r {
        chk(v.push(own(1)) == i, 4);
    }
    drop(v);
    chk(live() == 0, 5);
}
fn rsv<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, n: u64, max: usize) -> CV<Own, P> {
    let mut v = pre(v, n);
    v.reserve_maximum_capacity(max);
    v
}
fn posn<P: IntoConcurrentPinnedVec<CE<Own>>>(v: &CV<Own, P>) {
    chk(v[g(1)].map(|x| x.val()) == 1 && v[g(2)].map(|x| x.val()) == 2, 20);
    reach(g(1) as u32);
}
conc2! { "c16_l", VL<Own>, rsv(VL::with_linear_growth(1, 1), 2, 4); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| { posn(&v); end(v, 4) } }
conc2! { "c16_f", VF<Own>, rsv(VF::with_fixed_capacity(1), 1, 3); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| { posn(&v); end(v, 3) } }
conc2! { "c16_d", VD<Own>, rsv(dsmall(1), 3, 12); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| { posn(&v); chk(v.len() == 5 && v.maximum_capacity() == 12, 21) } }
conc2! { "c16_fl", VF<Own>, rsv(VF::with_fixed_capacity(1), 1, 2); |v| { v.push(own(101)); }, |v| { let n = v.len(); chk(n == 1 || n == 2, 30); for i in 0..n { chk(v[i].map(|x| x.val()) == 100 + i as u64, 31) } out(1, n as u64) }; |v| { reach(got(1) as u32); end(v, 2) } }
conc2! { "c16_lr", VL<Own>, rsv(VL::with_linear_growth(1, 1), 2, 4); |v| { v.push(own(102)); }, |v| { let x = v.get_cloned(2).map(|x| x.val()).unwrap_or(7); chk(x == 7 || x == 102, 30); v[0].set(own(8)); out(1, x) }; |v| { reach(got(1) as u32); chk(v[0].map(|x| x.val()) == 8, 32); end(v, 3) } }

// ---- large and over-aligned elements
seq!(s_c16_res_bl, reserve::<Big, _>(VL::with_linear_growth(1, 2), q(2, 0), q(3, 4), 2, 1));
seq!(s_c16_res_tf, reserve::<Tri, _>(VF::with_fixed_capacity(2), 0, 2, 2, q(1, 2)));
