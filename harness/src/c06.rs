//! C06: elements are pinned: addresses and references survive growth
use crate::rt::*;
use orx_concurrent_vec::*;

fn addr<T, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, i: usize) -> (*const CE<T>, *const T) {
    (v.get(i).unwrap() as *const _, v.get_raw(i).unwrap())
}
fn grow<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, l: &mut List, maxn: u64) {
    let x = any();
    let n = match below(4) {
        0 => {
            v.push(T::mk(x));
            1
        }
        1 => {
            let n = range(1, maxn);
            v.extend((0..n).map(|_| T::mk(x)));
            n
        }
        2 => {
            v.push_for_idx(|_| T::mk(x));
            1
        }
        _ => {
            v.extend_for_idx(|_| (0..maxn as usize).map(|_| T::mk(x)), maxn as usize);
            maxn as usize
        }
    };
    for _ in 0..n {
        l.push(x);
    }
}
/// addresses of all elements after every growth call, up to the maximum capacity
fn pinned<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64, k: usize, maxn: u64) {
    let mut l = filled(&v, lo, hi);
    let n0 = l.n;
    let mut a = [(core::ptr::null(), core::ptr::null()); 12];
    for i in 0..n0 {
        a[i] = addr(&v, i);
    }
    // references obtained before the growth
    let s = v.as_slice();
    let r = v.get(0);
    let mut it = v.iter();
    let first = it.next();
    let mut n = n0;
    for _ in 0..k {
        grow(&v, &mut l, maxn);
        for i in 0..n {
            chk(addr(&v, i) == a[i], 1);
        }
        for i in n..l.n {
            a[i] = addr(&v, i);
        }
        n = l.n;
    }
    same(&v, l.s(), 10);
    chk(s.len() == n0, 2);
    for i in 0..n0 {
        chk(core::ptr::eq(&s[i], &v[i]) && s[i].cloned().val() == l.d[i], 3);
    }
    if let Some(r) = r {
        chk(core::ptr::eq(r, &v[0]) && r.cloned().val() == l.d[0], 4);
        chk(core::ptr::eq(first.unwrap(), &v[0]), 5);
        let x = any();
        r.set(T::mk(x));
        chk(v[0].cloned().val() == x && s[0].cloned().val() == x, 6);
        let mut i = 1;
        for e in it {
            chk(core::ptr::eq(e, &v[i]), 7);
            i += 1;
        }
        chk(i >= n0, 8);
        reach(1);
    }
    // elements do not overlap
    for i in 1..l.n {
        for j in 0..i {
            let d = (a[i].0 as usize).abs_diff(a[j].0 as usize);
            chk(d >= core::mem::size_of::<CE<T>>(), 9);
        }
    }
}
seq!(s_c06_l, pinned(VL::<u64>::with_linear_growth(1, 6), 0, q(2, 3), 2, q(3, 4)));
seq!(s_c06_l2, pinned(VL::<u64>::with_linear_growth(2, 3), 1, q(4, 4), 2, q(4, 4)));
seq!(s_c06_d, pinned(dbl::<u64>(), 1, 4, 2, q(4, 4)));
seq!(s_c06_f, pinned(VF::<u64>::with_fixed_capacity(12), 0, q(3, 4), 2, q(4, 4)));
seq!(s_c06_o, pinned(VL::<Own>::with_linear_growth(1, 6), 1, 3, 2, q(3, 4)));
seq!(s_c06_p, pinned(dbl::<Pair>(), 2, 4, 2, q(3, 4)));
/// growth through several fragments in one call
fn far<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: u64) {
    v.extend([1, 2, 3]);
    let a = [addr(&v, 0), addr(&v, 1), addr(&v, 2)];
    let m = range(n - 2, n) as u64;
    v.extend_n_items(0..n, m as usize);
    for i in 0..3 {
        chk(addr(&v, i) == a[i] && v[i] == 1 + i as u64, 1);
    }
    let p = v.get_raw(3).unwrap();
    v.push(9);
    chk(p == v.get_raw(3).unwrap() && v[3] == 0, 2);
    reach(1);
}
seq!(s_c06_far_d, far(dbl::<u64>(), q(60, 125)));
seq!(s_c06_far_l, far(VL::<u64>::with_linear_growth(2, 32), q(60, 120)));
seq!(s_c06_far_f, far(VF::<u64>::with_fixed_capacity(q(64, 130) as usize), q(60, 120)));

// ---- concurrent: one thread holds references while others grow
fn hold<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>) {
    let e = v.get(0).unwrap();
    let s = v.slice(0..1);
    let a = (e as *const _ as usize, v.get_raw(0).unwrap() as usize);
    e.update(|x| *x = T::mk(x.val() + 1));
    chk(s[0].map(|x| x.val()) == 101, 1);
    let b = addr(v, 0);
    chk(a == (b.0 as usize, b.1 as usize), 2);
    out(1, a.0 as u64);
    e.set(T::mk(7));
}
fn after<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: Box<CV<T, P>>, n: usize) {
    chk(addr(&v, 0).0 as u64 == got(1), 3);
    chk(v[0].cloned().val() == 7, 4);
    chk(v.len() == n, 5);
    for i in 1..n {
        let a = addr(&v, i);
        v.push(T::mk(1));
        chk(addr(&v, i) == a && v.get_raw(i).unwrap() == a.1, 6);
    }
    drop(v);
    chk(live() == 0, 7);
}
fn big<T: Elem>(n: u64) -> VL<T> {
    pre(VL::with_linear_growth(1, 8), n)
}
macro_rules! h2 {
    ($n:literal, $ty:ty, $s:expr, $k:expr, $g:expr) => {
        conc2! { $n, $ty, $s; |v: &$ty| { let g: fn(&$ty) = $g; g(v) }, |v: &$ty| hold(v); |v| after(v, $k) }
    };
}
h2! { "c06_p", VL<u64>, big(2), 3, |v| { v.push(11); } }
h2! { "c06_po", VL<Own>, big(2), 3, |v| { v.push(own(11)); } }
h2! { "c06_pp", VL<u64>, big(1), 3, |v| { v.push(11); v.push(12); } }
h2! { "c06_e", VL<u64>, big(1), 4, |v| { v.extend([11, 12, 13]); } }
h2! { "c06_d", VD<u64>, d1(3), 6, |v| { v.extend([11, 12, 13]); } }
h2! { "c06_f", VF<u64>, f1(1, 8), 3, |v| { v.extend([11, 12]); } }
conc2! { "c06_three", VL<u64>, big::<u64>(2); |v| { v.push(11); }, |v| { v.push(12); }, |v| hold(v); |v| after(v, 4) }
/// the address seen by the growing thread itself stays while another thread grows
conc2! { "c06_own_push", VL<u64>, big::<u64>(1);
    |v| { let i = v.push(11); out(2, i as u64); if let Some(p) = v.get_raw(i) { out(3, p as u64) } else { out(3, 0) } },
    |v| { v.extend([21, 22]); };
    |v| { let i = g(2); let p = v.get_raw(i).unwrap() as u64; chk(got(3) == p || got(3) == 0, 1); chk(v[i] == 11, 2); reach(i as u32); if got(3) == p { reach(10) } } }

// ---- positions of two growing threads which are several fragments apart
macro_rules! apart {
    ($($n:literal $ty:ty, $s:expr, $g1:expr, $g2:expr, $k:expr;)*) => {
        $( conc2! { $n, $ty, $s;
            |v: &$ty| { let g: fn(&$ty) -> usize = $g1; let i = g(v); out(2, i as u64); out(3, v.get_raw(i).unwrap() as u64) },
            |v: &$ty| { let g: fn(&$ty) -> usize = $g2; let i = g(v); out(4, i as u64); out(5, v.get_raw(i).unwrap() as u64) };
            |v| { chk(v.len() == $k, 1); chk(v.get_raw(g(2)).unwrap() as u64 == got(3) && v.get_raw(g(4)).unwrap() as u64 == got(5), 2);
                chk(v[g(2)].map(|x| x.val()) == 11 && v[g(4)].map(|x| x.val()) == 21, 3); reach(g(2) as u32); drop(v); chk(live() == 0, 4) } } )*
    };
}
apart! {
    "c06_apart_l" VL<u64>, big(1), |v| v.extend([11, 12, 13, 14, 15]), |v| v.extend([21, 22]), 8;
    "c06_apart_l0" VL<u64>, big(0), |v| v.extend_n_items([11, 12, 13, 14], 4), |v| v.extend_n_items([21, 22, 23, 24, 25], 5), 9;
    "c06_apart_o" VL<Own>, big(2), |v| v.extend_for_idx(|_| [own(11), own(12), own(13), own(14)], 4), |v| v.push(own(21)), 7;
    "c06_apart_d" VD<u64>, d1(0), |v| v.extend([11, 0, 0, 0, 0, 0, 0, 0, 0]), |v| v.extend([21]), 10;
    "c06_apart_d2" VD<u64>, d1(1), |v| v.push_for_idx(|_| 11), |v| v.extend([21, 0, 0, 0, 0, 0, 0, 0, 0]), 11;
}

// ---- large and over-aligned elements
seq!(s_c06_b, pinned(VL::<Big>::with_linear_growth(1, 6), 1, 2, q(1, 2) as usize, q(3, 4)));
seq!(s_c06_t, pinned(dbl::<Tri>(), 3, 4, q(1, 2) as usize, q(3, 4)));
