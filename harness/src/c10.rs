//! C10: equality is element-wise equality, and is safe to evaluate concurrently
use crate::rt::*;
use orx_concurrent_vec::*;

fn list(n: usize) -> List {
    let mut l = List::new();
    for _ in 0..n {
        l.push(any());
    }
    l
}
fn put<T: Elem>(v: &VD<T>, l: &List) {
    for i in 0..l.n {
        v.push(T::mk(l.d[i]));
    }
}
/// two vectors (contents arbitrary), vector and slice, slice and slice with different offsets
fn two<T: Elem>(lo: u64, hi: u64, lo2: u64) {
    let (v, w) = (dbl::<T>(), dbl::<T>());
    let l = list(range(lo, hi));
    let m = list(range(lo2, hi));
    put(&v, &l);
    put(&w, &m);
    let eq = l.s() == m.s();
    chk((v == w) == eq && (w == v) == eq && (v != w) == !eq, 1);
    let (s, t) = (v.as_slice(), w.as_slice());
    chk((s == t) == eq && (s == w) == eq && (v == t) == eq && (s != t) == !eq, 2);
    reach(eq as u32);
    // slices at different offsets
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    let c = range(0, m.n as u64);
    let s = v.slice(a..b);
    let t = w.slice(c..);
    let eq = l.s()[a..b] == m.s()[c..];
    chk((s == t) == eq && (t == s) == eq && (s != t) == !eq, 3);
    chk((s == w) == (l.s()[a..b] == *m.s()), 4);
    chk((w == s) == (l.s()[a..b] == *m.s()), 5);
    reach(2 + eq as u32);
}
seq!(s_c10_two, two::<u64>(q(2, 0), q(2, 3), q(0, 0)));
/// across a fragment boundary
fn long<T: Elem>(n: u64) {
    let (v, w) = (dbl::<T>(), dbl::<T>());
    let l = list(n as usize);
    let m = list(n as usize);
    put(&v, &l);
    put(&w, &m);
    let eq = l.s() == m.s();
    chk((v == w) == eq && (v != w) == !eq, 1);
    let a = range(0, 1) as usize;
    let b = n as usize;
    let eq = l.s()[a..b] == m.s()[1..];
    chk((v.slice(a..b) == w.slice(1..)) == eq, 2);
    reach(eq as u32);
}
seq!(s_c10_two_b, long::<u64>(q(5, 6)));
seq!(s_c10_two_o, two::<Own>(1, 2, 1));
/// against plain arrays and slices
fn plain(lo: u64, hi: u64) {
    let v = dbl::<u64>();
    let l = list(range(lo, hi));
    put(&v, &l);
    let x = [any(), any(), any()];
    let e3 = l.s() == x;
    chk((v == x) == e3 && (v != x) == !e3, 1);
    chk((v == x[..]) == e3, 2);
    let k = range(0, 3);
    chk((v == x[..k]) == (l.s() == &x[..k]), 3);
    let e: [u64; 0] = [];
    chk((v == e) == (l.n == 0), 4);
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    let s = v.slice(a..b);
    let y = [x[0], x[1]];
    chk((s == y) == (l.s()[a..b] == y), 5);
    chk((s == x[..k]) == (l.s()[a..b] == x[..k]), 6);
    chk((s == e) == (a == b), 7);
    reach(e3 as u32);
    reach(2 + (s == y) as u32);
}
seq!(s_c10_plain, plain(0, q(3, 4)));
seq!(s_c10_plain_b, plain(4, q(5, 6)));
/// the same vector, the same slice, overlapping slices
fn overlap<T: Elem>(lo: u64, hi: u64) {
    let v = dbl::<T>();
    let l = list(range(lo, hi));
    put(&v, &l);
    chk(v == v && !(v != v) && v.as_slice() == v && v == v.as_slice(), 1);
    let n = l.n as u64;
    let b = range(0, n);
    let a = range(0, b as u64);
    let d = range(0, n);
    let c = range(0, d as u64);
    let (s, t) = (v.slice(a..b), v.slice(c..d));
    let eq = l.s()[a..b] == l.s()[c..d];
    chk((s == t) == eq && (s != t) == !eq, 2);
    chk((s == v) == (l.s()[a..b] == *l.s()), 3);
    reach(eq as u32);
}
seq!(s_c10_overlap, overlap::<u64>(0, q(3, 4)));
seq!(s_c10_overlap_b, overlap::<u64>(q(5, 5), q(5, 6)));
seq!(s_c10_overlap_o, overlap::<Own>(2, 2));
/// elements with each other and with values, of any storage
fn elems<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let i = below(l.n as u64);
    let j = below(l.n as u64);
    chk((v[i] == v[j]) == (l.d[i] == l.d[j]) && (v[i] != v[j]) == (l.d[i] != l.d[j]), 1);
    let x = any();
    chk((v[i] == T::mk(x)) == (l.d[i] == x) && (v[i] != T::mk(x)) == (l.d[i] != x), 2);
    same(&v, l.s(), 10);
    reach((v[i] == v[j]) as u32);
}
seq!(s_c10_elems_l, elems(lin::<u64>(), 1, q(3, 5)));
seq!(s_c10_elems_d, elems(dbl::<Own>(), 1, q(3, 5)));
seq!(s_c10_elems_f, elems(fix::<u64>(), 1, q(3, 5)));

/// equality which is not reflexive, as that of floating point numbers: an odd value equals nothing
#[derive(Clone, Copy)]
struct Nan(u64);
impl PartialEq for Nan {
    fn eq(&self, o: &Nan) -> bool {
        self.0 == o.0 && self.0 & 1 == 0
    }
}
fn nan<P: IntoConcurrentPinnedVec<CE<Nan>>>(v: CV<Nan, P>, w: VD<Nan>, lo: u64, hi: u64)
where
    CV<Nan, P>: PartialEq<[Nan]>,
{
    let l = list(range(lo, hi));
    let n = l.n;
    let all = |a: usize, b: usize| l.d[a..b].iter().all(|x| x & 1 == 0);
    for i in 0..n {
        v.push(Nan(l.d[i]));
        w.push(Nan(l.d[i]));
    }
    let a: [Nan; 12] = core::array::from_fn(|i| Nan(l.d[i]));
    chk((v == a[..n]) == all(0, n) && (w == a[..n]) == all(0, n), 1);
    chk((w == w) == all(0, n) && (w != w) == !all(0, n), 2);
    let s = w.as_slice();
    chk((s == w) == all(0, n) && (w == s) == all(0, n), 3);
    chk((s == s) == all(0, n) && (s != w.as_slice()) == !all(0, n), 4);
    let b = range(0, n as u64);
    let c = range(0, b as u64);
    let e = all(c, b);
    let (s, t) = (w.slice(c..b), w.slice(c..b));
    chk((s == t) == e && (s != t) == !e && (s == s) == e && (s == a[c..b]) == e, 5);
    let x = w.clone();
    chk((x == w) == all(0, n) && (x.slice(c..b) == s) == e, 6);
    if n > 0 {
        let i = range(0, n as u64 - 1);
        let e = l.d[i] & 1 == 0;
        chk((v[i] == v[i]) == e && (v[i] != v[i]) == !e, 7);
        chk((w[i] == v[i]) == e && (v[i] == w[i]) == e, 8);
        chk((v[i] == a[i]) == e && w.contains(&a[i]) == e, 9);
        reach(1 + e as u32);
    }
    reach(3 + all(0, n) as u32);
}
seq!(s_c10_nan, nan(dbl::<Nan>(), dbl(), 0, q(2, 3)));

// ---- concurrent
fn dv<T: Elem>(a: u64, b: u64) -> VD<T> {
    let v = dbl();
    v.push(T::mk(a));
    v.push(T::mk(b));
    v
}
// element with element, while one of them changes
conc2! { "c10_ee", VD<Pair>, dv::<Pair>(1, 2); |v| { let e = v[0] == v[1]; reach(1 + e as u32) }, |v| { v[0].set(pair(2)); };
    |v| chk(v[0] == v[1], 1) }
conc2! { "c10_ee_o", VD<Own>, dv::<Own>(1, 1); |v| { let e = v[0] == v[1]; out(1, e as u64) }, |v| { v[0].set(own(2)); v[0].set(own(1)) };
    |v| { reach(got(1) as u32); chk(v[0] == v[1], 1); drop(v); chk(live() == 0, 2) } }
conc2! { "c10_ee_u", VD<Own>, dv::<Own>(1, 2); |v| chk(v[0] != v[1], 1), |v| v[1].update(|x| *x.0 = 3); |v| chk(v[0] != v[1], 2) }
// opposite comparisons and swaps take the elements in any order
conc2! { "c10_opp", VD<u64>, dv::<u64>(1, 2); |v| chk(v[0] != v[1], 1), |v| chk(v[1] != v[0], 2); |v| chk(v.len() == 2, 3) }
conc2! { "c10_swap", VD<u64>, dv::<u64>(1, 2); |v| chk(v[1] != v[0], 1), |v| { v.swap(0, 1); }; |v| chk(v[0] == 2, 3) }
conc2! { "c10_self", VD<u64>, dv::<u64>(1, 2); |v| { chk(v[0] == v[0], 1) }, |v| { v[0].set(5) }; |v| chk(v[0] == 5, 3) }
// element and value
conc2! { "c10_ev", VD<Own>, dv::<Own>(1, 2); |v| { let e = v[0] == own(1); reach(1 + e as u32) }, |v| { v[0].replace(own(3)); }; |v| { chk(v[0] == own(3), 1); drop(v); chk(live() == 0, 2) } }
// two vectors
conc2! { "c10_vv", (VD<u64>, VD<u64>), (dv::<u64>(1, 2), dv::<u64>(1, 3)); |c| { let e = c.0 == c.1; reach(1 + e as u32) }, |c| c.1[1].set(2); |c| chk(c.0 == c.1, 1) }
conc2! { "c10_vv2", (VD<u64>, VD<u64>), (dv::<u64>(1, 2), dv::<u64>(1, 2)); |c| { chk(c.0 == c.1, 1) }, |c| chk(c.1 == c.0, 2); |c| chk(c.0 == c.1, 3) }
conc2! { "c10_vvo", (VD<Own>, VD<Own>), (dv::<Own>(1, 2), dv::<Own>(1, 2)); |c| { let e = c.0 == c.1; reach(1 + e as u32) }, |c| c.0[0].set(own(9)); |c| { chk(c.0 != c.1, 3); drop(c); chk(live() == 0, 4) } }
// the same vector and overlapping slices
conc2! { "c10_same", VD<u64>, dv::<u64>(1, 2); |v| { chk(*v == *v, 1) }, |v| v[1].update(|x| *x += 1); |v| chk(v[1] == 3, 2) }
conc2! { "c10_over", VD<u64>, { let v = dv::<u64>(1, 1); v.push(1); v }; |v| { let e = v.slice(0..2) == v.slice(1..3); reach(1 + e as u32) }, |v| v[1].set(2);
    |v| chk(v.slice(0..2) != v.slice(1..3), 1) }
conc2! { "c10_over2", VD<u64>, { let v = dv::<u64>(1, 1); v.push(1); v }; |v| { let _ = v.slice(0..2) == v.slice(1..3); }, |v| { let _ = v.slice(1..3) == v.slice(0..2); };
    |v| chk(v.len() == 3, 1) }
// slice and array, growth meanwhile
conc2! { "c10_arr", VD<u64>, dv::<u64>(1, 2); |v| { let e = *v == [1, 2]; reach(1 + e as u32) }, |v| { v.push(3); }; |v| chk(*v == [1, 2, 3], 1) }
conc2! { "c10_slarr", VD<u64>, dv::<u64>(1, 2); |v| { let e = v.slice(1..2) == [5]; reach(1 + e as u32) }, |v| { v[1].set(5); v[0].set(5) }; |v| chk(*v == [5, 5], 1) }

// ---- elements of no size: equal exactly when the lengths are
#[derive(Clone, Copy, PartialEq, Debug)]
struct Unit;
fn unit<T: Copy + PartialEq>(x: T) {
    let n = range(0, 4) as usize;
    let m = range(0, 4) as usize;
    let v = dbl::<T>();
    let w = dbl::<T>();
    let w2 = dbl::<T>();
    for _ in 0..n {
        v.push(x);
    }
    for _ in 0..m {
        w2.push(x);
        w.push(x);
    }
    let eq = n == m;
    let a = [x; 4];
    chk((v == w2) == eq && (w2 == v) == eq, 1);
    chk((v.as_slice() == w2.as_slice()) == eq && (w2.as_slice() == v) == eq, 2);
    chk((v == a) == (n == 4) && (v == a[..m]) == eq, 3);
    chk((w.as_slice() == a) == (m == 4) && (w.slice(..) == a[..n]) == eq, 4);
    let k = range(0, n as u64) as usize;
    chk((v.slice(k..) == a[..m]) == (n - k == m), 5);
    chk((v.slice(..k) == w2) == (k == m), 6);
    chk(v.contains(&x) == (n > 0) && v.index_of(&x) == if n > 0 { Some(0) } else { None }, 7);
    reach(eq as u32);
}
seq!(s_c10_unit, unit(Unit));
seq!(s_c10_unit_e, unit([0u64; 0]));
// elements smaller than a word
fn small<T: Elem + Copy>(hi: u64) {
    let v = dbl::<T>();
    let n = range(1, hi) as usize;
    let mut a = [T::mk(0); 6];
    let mut b = [T::mk(0); 6];
    for i in 0..n {
        a[i] = T::mk(any());
        b[i] = T::mk(any());
        v.push(a[i]);
    }
    let w = dbl::<T>();
    let m = range(n as u64 - 1, n as u64) as usize;
    for i in 0..m {
        w.push(b[i]);
    }
    let mut eq = n == m;
    for i in 0..m {
        eq = eq && a[i] == b[i];
    }
    chk((v == w) == eq && (v.as_slice() == w.as_slice()) == eq && (v == b[..m]) == eq && (w.slice(..) == a[..n]) == eq, 1);
    reach(eq as u32);
}
seq!(s_c10_u8, small::<u8>(q(5, 6)));
seq!(s_c10_u32, small::<u32>(q(3, 5)));

// ---- large and over-aligned elements
seq!(s_c10_two_big, two::<Big>(1, 2, 1));
seq!(s_c10_elems_b, elems(dbl::<Big>(), 1, q(3, 5)));
