//! C02: readers never see unwritten or torn elements; no data races
use crate::rt::*;
use orx_concurrent_vec::*;

// ---- growth against every way of reading; one growing thread, n0 old elements, then 11, 12, 13
fn ok(i: usize, n0: usize, x: u64) -> bool {
    if i < n0 {
        x == 100 + i as u64
    } else {
        i < n0 + 3 && x == 11 + (i - n0) as u64
    }
}
fn by_get<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    for i in 0..n0 + 2 {
        if let Some(e) = v.get(i) {
            chk(e.map(|x| ok(i, n0, x.val())), 1);
            reach(i as u32);
        } else {
            chk(i >= n0, 2);
        }
    }
}
fn by_cloned<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    for i in 0..n0 + 3 {
        if let Some(e) = v.get_cloned(i) {
            chk(ok(i, n0, e.val()), 3);
            reach(i as u32);
        } else {
            chk(i >= n0, 4);
        }
    }
}
fn by_iter<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let mut k = 0;
    for e in v.iter() {
        chk(ok(k, n0, e.cloned().val()), 5);
        k += 1;
    }
    chk(k >= n0, 6);
    reach(k as u32);
}
fn by_iter_cloned<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let mut k = 0;
    for e in v.iter_cloned() {
        chk(ok(k, n0, e.val()), 7);
        k += 1;
    }
    chk(k >= n0, 8);
    reach(k as u32);
}
fn by_slice<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let s = v.as_slice();
    chk(s.len() >= n0, 9);
    for i in 0..s.len() {
        chk(ok(i, n0, s[i].cloned().val()), 10);
    }
    chk(s.get(s.len()).is_none(), 11);
    reach(s.len() as u32);
}
fn by_index<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let n = v.len();
    chk(n >= n0, 12);
    if n > 0 {
        chk(ok(n - 1, n0, v[n - 1].cloned().val()), 13);
    }
    reach(n as u32);
}
fn by_vec<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let c = v.clone_to_vec();
    chk(c.len() >= n0, 14);
    for i in 0..c.len() {
        chk(ok(i, n0, c[i].val()), 15);
    }
    reach(c.len() as u32);
}
fn by_search<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    match v.index_of(&T::mk(11)) {
        Some(i) => {
            chk(i == n0, 16);
            chk(v.contains(&T::mk(11)), 17);
            reach(1)
        }
        None => reach(2),
    }
}
fn by_fold<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    let k = v.fold(0, |k, x| {
        chk(ok(k, n0, x.val()), 18);
        k + 1
    });
    chk(k >= n0, 19);
    let mut k = 0;
    for y in v.map(|x| x.val()) {
        chk(ok(k, n0, y), 20);
        k += 1;
    }
    reach(k as u32);
}
fn by_reduce<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    match v.reduce(|a, x| if a.val() > x.val() { a.clone() } else { x.clone() }) {
        Some(x) => chk(x.val() == if n0 > 0 { 99 + n0 as u64 } else { x.val() } && (n0 > 0 || x.val() >= 11 && x.val() <= 13), 21),
        None => chk(n0 == 0, 22),
    }
}
fn by_filter<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n0: usize) {
    for e in v.filter(|x| x.val() < 100) {
        chk(core::ptr::eq(e, &v[n0]) || core::ptr::eq(e, &v[n0 + 1]), 23);
        reach(1);
    }
}
macro_rules! gr {
    ($n:literal, $ty:ty, $setup:expr, $n0:expr, $t:ty, $g:expr, $r:expr) => {
        conc2! { $n, $ty, $setup;
            |v: &$ty| { let g: fn(&$ty) = $g; g(v) },
            |v: &$ty| $r(v, $n0);
            |v| { let mut k = 0; for e in v.iter() { chk(ok(k, $n0, e.cloned().val()), 30); k += 1; } chk(k > $n0, 31); drop(v); chk(live() == 0, 32) } }
    };
}
macro_rules! push1 { ($t:ty) => { |v| { v.push(<$t>::mk(11)); } }; }
macro_rules! push2 { ($t:ty) => { |v| { v.push(<$t>::mk(11)); v.push(<$t>::mk(12)); } }; }
macro_rules! ext { ($t:ty, $n:expr) => { |v| { v.extend((0..$n).map(|q: u32| <$t>::mk(11 + q as u64)).collect::<Few<$t>>()); } }; }
/// a small iterator of known length
pub struct Few<T>(Option<T>, Option<T>, Option<T>);
impl<T> FromIterator<T> for Few<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut i = i.into_iter();
        Few(i.next(), i.next(), i.next())
    }
}
impl<T> Iterator for Few<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.0.take();
        self.0 = self.1.take();
        self.1 = self.2.take();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.is_some() as usize + self.1.is_some() as usize + self.2.is_some() as usize;
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for Few<T> {}

gr! { "c02_get", VL<u64>, l1(1), 1, u64, push2!(u64), by_get }
gr! { "c02_get2", VL<Own>, o1(2), 2, Own, push1!(Own), by_get }
gr! { "c02_get3", VL<Pair>, lin(), 0, Pair, ext!(Pair, 2), by_get }
gr! { "c02_cl", VL<u64>, l1(1), 1, u64, push2!(u64), by_cloned }
gr! { "c02_cl2", VL<Own>, o1(1), 1, Own, ext!(Own, 2), by_cloned }
gr! { "c02_cl3", VF<u64>, f1(1, 4), 1, u64, push2!(u64), by_cloned }
gr! { "c02_cl4", VD<Pair>, dbl(), 0, Pair, push2!(Pair), by_cloned }
gr! { "c02_cl5", VD<u64>, d1(3), 3, u64, push2!(u64), by_cloned }
gr! { "c02_it", VL<u64>, l1(1), 1, u64, push2!(u64), by_iter }
gr! { "c02_it2", VL<Own>, o1(2), 2, Own, push1!(Own), by_iter }
gr! { "c02_it3", VD<u64>, d1(3), 3, u64, push2!(u64), by_iter }
gr! { "c02_it4", VF<Pair>, VF::with_fixed_capacity(3), 0, Pair, ext!(Pair, 2), by_iter }
gr! { "c02_ic", VL<Own>, o1(1), 1, Own, push2!(Own), by_iter_cloned }
gr! { "c02_ic2", VL<Pair>, lin(), 0, Pair, ext!(Pair, 3), by_iter_cloned }
gr! { "c02_sl", VL<u64>, l1(1), 1, u64, ext!(u64, 2), by_slice }
gr! { "c02_sl2", VF<u64>, f1(1, 4), 1, u64, push2!(u64), by_slice }
gr! { "c02_ix", VL<u64>, l1(1), 1, u64, push2!(u64), by_index }
gr! { "c02_ix2", VD<Own>, dbl(), 0, Own, ext!(Own, 2), by_index }
gr! { "c02_vec", VL<u64>, l1(1), 1, u64, push2!(u64), by_vec }
gr! { "c02_vec2", VL<Own>, o1(1), 1, Own, push1!(Own), by_vec }
gr! { "c02_se", VL<u64>, l1(1), 1, u64, push2!(u64), by_search }
gr! { "c02_se2", VL<Own>, o1(1), 1, Own, push1!(Own), by_search }
gr! { "c02_fo", VL<u64>, l1(1), 1, u64, push1!(u64), by_fold }
gr! { "c02_re", VL<u64>, l1(1), 1, u64, push2!(u64), by_reduce }
gr! { "c02_re2", VL<u64>, l1(0), 0, u64, push2!(u64), by_reduce }
gr! { "c02_fi", VL<u64>, l1(1), 1, u64, push2!(u64), by_filter }

// ---- two growing threads and a reader
conc2! { "c02_three", VL<u64>, l1(1);
    |v| { v.push(11); },
    |v| { v.push(12); },
    |v| { for i in 1..3 { if let Some(x) = v.get_cloned(i) { chk(x == 11 || x == 12, 1); reach(x as u32) } } };
    |v| { chk(v.len() == 3, 2) } }
// a reader which saw the later position while the earlier one is still being written
conc2! { "c02_gap", VL<u64>, l1(0);
    |v| { v.extend_n_items([11, 12], 2); },
    |v| { let i = v.push(21); chk(v.get_cloned(i) == Some(21), 1);
        let mut k = 0; for x in v.iter_cloned() { chk(x == 11 || x == 12 || x == 21, 2); k += 1; } reach(k) };
    |v| { chk(v.len() == 3, 4) } }

// ---- mutation against reads of the same element
fn two<T: Elem>() -> VL<T> {
    let v = lin();
    v.push(T::mk(1));
    v.push(T::mk(2));
    let _ = v.len();
    v
}
fn in_(x: u64, s: &[u64]) -> bool {
    s.iter().any(|y| *y == x)
}
macro_rules! mr {
    ($n:literal, $t:ty, $g:expr, $r:expr) => {
        conc2! { $n, VL<$t>, two::<$t>();
            |v: &VL<$t>| { let g: fn(&VL<$t>) = $g; g(v) },
            |v: &VL<$t>| { let g: fn(&VL<$t>) = $r; g(v) };
            |v| { chk(v.len() == 2 || v.len() == 3 && *$n.as_bytes().last().unwrap() >= b'x', 40); drop(v); chk(live() == 0, 41) } }
    };
}
mr! { "c02_m1", Pair, |v| v[0].set(pair(7)), |v| chk(in_(v[0].cloned().val(), &[1, 7]), 1) }
mr! { "c02_m2", Pair, |v| { v[0].replace(pair(7)); }, |v| chk(v[0].map(|x| in_(x.val(), &[1, 7])), 1) }
mr! { "c02_m3", Pair, |v| v[0].update(|x| { x.0 = 7; x.1 = 7 }), |v| { for x in v.iter_cloned() { chk(in_(x.val(), &[1, 2, 7]), 1) } } }
mr! { "c02_m4", Own, |v| v[0].set(own(7)), |v| chk(in_(v.get_cloned(0).unwrap().val(), &[1, 7]), 1) }
mr! { "c02_m5", Own, |v| v[0].update(|x| *x.0 = 7), |v| { chk(in_(v.clone_to_vec()[0].val(), &[1, 7]), 1) } }
mr! { "c02_m6", Own, |v| { v.fill(own(7)) }, |v| chk(in_(v.fold(0, |a, x| a + x.val()), &[3, 9, 14, 8]), 1) }
mr! { "c02_m7", Pair, |v| { v.fill_with(|i| pair(7 + i as u64)) }, |v| { let x = v.reduce(|a, b| pair(a.val() * 100 + b.val())); chk(in_(x.unwrap().val(), &[102, 702, 708, 108]), 1) } }
mr! { "c02_m8", Own, |v| { v[0].replace(own(7)); }, |v| { let i = v.index_of(&own(7)); chk(i.is_none() || i == Some(0), 1); chk(v.contains(&own(2)), 2) } }
mr! { "c02_m9", Pair, |v| { v.swap(0, 1); }, |v| { for e in v.slice(0..2).iter() { chk(in_(e.copied().val(), &[1, 2]), 1) } } }
mr! { "c02_ma", Own, |v| { v[1].set(own(7)); }, |v| { let s = v.slice(1..); chk(s[0] == own(2) || s[0] == own(7), 1); chk(s.get_cloned(1).is_none(), 2) } }
mr! { "c02_mx", Own, |v| { v[0].set(own(7)); v.push(own(8)); }, |v| { for (i, e) in v.iter().enumerate() { let x = e.cloned().val(); chk(in_(x, [&[1, 7][..], &[2][..], &[8][..]][i]), 1); } } }
mr! { "c02_my", Own, |v| { v.push(own(8)); }, |v| { if let Some(e) = v.get(2) { e.set(own(9)); chk(v[2] == own(9), 1); reach(1) } } }

// elements of the size of a machine word or less: every way of reading against a mutation of the same element
macro_rules! small {
    ($($n:literal $t:ty, $w:expr, $r:expr;)*) => {
        $( conc2! { $n, VL<$t>, two::<$t>();
            |v: &VL<$t>| { let g: fn(&VL<$t>) = $w; g(v) },
            |v: &VL<$t>| { let g: fn(&VL<$t>) -> u64 = $r; let x = g(v); chk(in_(x, &[1, 7]), 1); reach(x as u32) };
            |v| { chk(v.len() == 2 && v[0].cloned().val() == 7, 40) } } )*
    };
}
small! {
    "c02_w1" u64, |v| v[0].set(7), |v| v.get_copied(0).unwrap();
    "c02_w2" u8, |v| v[0].set(7), |v| v.get_copied(0).unwrap() as u64;
    "c02_w3" u64, |v| v[0].update(|x| *x += 6), |v| v.slice(0..1).get_copied(0).unwrap();
    "c02_w4" u32, |v| { v[0].replace(7); }, |v| v.slice(0..1).get_cloned(0).unwrap() as u64;
    "c02_w5" u64, |v| { v[0].replace(7); }, |v| v[0].copied();
    "c02_w6" u8, |v| { v[0].update(|x| *x = 7); }, |v| v.get_cloned(0).unwrap() as u64;
    "c02_w7" u64, |v| v.slice(0..1).fill(7), |v| v.iter_cloned().next().unwrap();
    "c02_w8" u8, |v| v.slice(0..1).fill_with(|_| 7), |v| v.slice(..1).clone_to_vec()[0] as u64;
    "c02_w9" u32, |v| v[0].set(7), |v| v[0].map(|x| *x as u64);
    "c02_wa" u64, |v| v[0].set(7), |v| v.slice(..1).fold(0, |a, x| a + x);
    "c02_wb" u64, |v| v[0].update(|x| *x = 7), |v| v.slice(..1).reduce(|a, x| a + x).unwrap();
    "c02_wc" u64, |v| v[0].set(7), |v| v.map(|x| *x).next().unwrap();
    "c02_wd" u64, |v| v[0].set(7), |v| if v[0] == 7 { 7 } else { 1 };
    "c02_we" u64, |v| v[0].set(7), |v| if v.index_of(&7).is_some() { 7 } else { 1 };
    "c02_wf" u8, |v| v[0].set(7), |v| if v.slice(..).contains(&1) { 1 } else { 7 };
    "c02_wg" u64, |v| v[0].set(7), |v| if v.filter(|x| *x == 7).next().is_some() { 7 } else { 1 };
    "c02_wh" u64, |v| v[0].set(7), |v| v.slice(..1).iter_cloned().next().unwrap();
    "c02_wi" u64, |v| v.slice(..1).slice(0..).get(0).unwrap().set(7), |v| v.slice(0..).get(0).unwrap().cloned();
    "c02_wj" u64, |v| v[0].set(7), |v| v.clone_to_vec()[0];
    "c02_wk" u64, |v| v[0].set(7), |v| v.clone()[0].copied();
}

// ---- while growth calls of the same thread are in flight (user code inside growth calls)
seq!(s_c02_fly_l, crate::inflight::inflight::<u64, _>(lin(), 0, q(2, 4), crate::inflight::READ));
seq!(s_c02_fly_lo, crate::inflight::inflight::<Own, _>(lin(), q(1, 0), q(2, 3), crate::inflight::READ));
seq!(s_c02_fly_d, crate::inflight::inflight::<u64, _>(dbl(), q(3, 1), q(4, 5), crate::inflight::READ));
seq!(s_c02_fly_f, crate::inflight::inflight::<u64, _>(VF::with_fixed_capacity(10), 0, q(1, 3), crate::inflight::READ));

// ---- the length counted by a second thread is enough for a third one to reach the element (new fragment in between)
macro_rules! relay {
    ($($n:literal $ty:ty, $mk:expr, $k:expr;)*) => {
        $( conc2! { $n, $ty, $mk;
            |v| { v.push(Elem::mk(100 + $k)); },
            |v| { v.len(); },
            |v| { let n = v.len(); if n > $k { let e = v.get($k); chk(e.is_some(), 1); if let Some(e) = e { chk(e.map(|x| x.val()) == 100 + $k, 2) } } reach(n as u32) };
            |v| { chk(v.len() == $k + 1, 3) } } )*
    };
}
relay! {
    "c02_relay_l" VL<u64>, l1(2), 2;
    "c02_relay_d" VD<u64>, d1(4), 4;
    "c02_relay_o" VL<Own>, o1(2), 2;
}

// ---- fragments provided in an unusual order: an extend across several fragments against a small growth call
conc2! { "c02_apart_d", VD<u64>, dbl(); |v| { v.extend([11, 12, 13, 14, 15, 16, 17, 18, 19]); }, |v| { let i = v.push(51); chk(v.get_cloned(i) == Some(51), 1) }; |v| { chk(v.len() == 10, 4); for x in v.iter_cloned() { chk(x >= 11 && x < 20 || x == 51, 5) } reach(1) } }
conc2! { "c02_apart_e", VD<u64>, d1(3); |v| { v.extend([11, 12, 13]); }, |v| { let x = v.get_cloned(5); chk(x.is_none() || x == Some(13), 2); let x = v.get_cloned(3); chk(x.is_none() || x == Some(11), 3); reach(2) }; |v| { chk(v.len() == 6, 6); reach(1) } }

// ---- large and over-aligned elements, elements of no size
gr! { "c02_big_get", VL<Big>, pre(lin(), 1), 1, Big, push2!(Big), by_get }
gr! { "c02_big_cl", VL<Big>, pre(lin(), 1), 1, Big, ext!(Big, 2), by_cloned }
gr! { "c02_big_it", VD<Big>, pre(dbl(), 3), 3, Big, push2!(Big), by_iter }
gr! { "c02_tri_cl", VL<Tri>, pre(lin(), 1), 1, Tri, push2!(Tri), by_cloned }
gr! { "c02_tri_ic", VF<Tri>, pre(VF::with_fixed_capacity(4), 1), 1, Tri, ext!(Tri, 2), by_iter_cloned }
mr! { "c02_mg1", Big, |v| v[0].set(Big::mk(7)), |v| chk(in_(v.get_copied(0).unwrap().val(), &[1, 7]), 1) }
mr! { "c02_mg2", Big, |v| { v[0].replace(Big::mk(7)); }, |v| chk(in_(v[0].map(|x| x.val()), &[1, 7]), 1) }
mr! { "c02_mg3", Big, |v| v[0].update(|x| *x = Big::mk(7)), |v| { for x in v.iter_cloned() { chk(in_(x.val(), &[1, 2, 7]), 1) } } }
mr! { "c02_mg4", Big, |v| { v.swap(0, 1); }, |v| { for e in v.slice(0..2).iter() { chk(in_(e.copied().val(), &[1, 2]), 1) } } }
mr! { "c02_mg5", Tri, |v| v.fill(Tri::mk(7)), |v| chk(in_(v.slice(..1).get_copied(0).unwrap().val(), &[1, 7]), 1) }
mr! { "c02_mg6", Tri, |v| { v.swap(0, 1); }, |v| chk(in_(v.get_copied(1).unwrap().val(), &[1, 2]), 1) }
macro_rules! unit {
    ($($n:literal $ty:ty, $mk:expr, $n0:expr, $w:expr, $k:expr, $r:expr;)*) => {
        $( conc2! { $n, $ty, $mk;
            |v: &$ty| { let g: fn(&$ty) = $w; g(v) },
            |v: &$ty| { let g: fn(&$ty, usize) = $r; g(v, $n0) };
            |v| { chk(v.len() == $n0 + $k, 8) } } )*
    };
}
unit! {
    "c02_unit_1" VL<Unit>, pre(lin(), 1), 1, |v| { v.push(Unit); }, 1, |v, n0| { let x = v.get_cloned(n0).is_some(); let n = v.len(); chk(n == n0 + 1 || n == n0 && !x, 1); reach(n as u32) };
    "c02_unit_2" VL<Unit>, pre(lin(), 1), 1, |v| { v.extend([Unit, Unit]); }, 2, |v, n0| { let x = v.get_cloned(n0 + 1).is_some(); let y = v.get(n0).is_some(); chk(y || !x, 1); chk(v.get_cloned(n0 + 2).is_none(), 2); reach(1 + x as u32 + 2 * y as u32) };
    "c02_unit_3" VD<Unit>, pre(dbl(), 3), 3, |v| { v.extend([Unit, Unit]); }, 2, |v, n0| { let n = v.len(); let k = v.iter().count(); chk(n >= n0 && k >= n && k <= n0 + 2, 1); reach((10 * n + k) as u32) };
    "c02_unit_4" VF<Unit>, pre(VF::with_fixed_capacity(4), 1), 1, |v| { v.push(Unit); v.push(Unit); }, 2, |v, n0| { let k = v.iter_cloned().count(); let n = v.as_slice().len(); chk(k >= n0 && n >= k && n <= n0 + 2, 1); reach((10 * n + k) as u32) };
    "c02_unit_5" VL<Unit>, pre(lin(), 0), 0, |v| { v.push_for_idx(|_| Unit); v.push(Unit); }, 2, |v, _| { let e = v.is_empty(); let r = v.get_raw(1).is_some(); chk(e || v.len() > 0, 1); chk(!r || v.len() == 2, 2); reach(1 + e as u32 + 2 * r as u32) };
}
fn unwritten<P: IntoConcurrentPinnedVec<CE<Unit>>>(v: CV<Unit, P>, n: usize) {
    pre_(&v, n);
    let i = v.push_for_idx(|i| {
        chk(i == n && v.len() == n && v.get_cloned(i).is_none() && v.get(i).is_none() && v.get_raw(i).is_none() && v.iter().count() == n, 1);
        v.push(Unit);
        chk(v.len() == n && v.get_cloned(i).is_none() && v.get(i + 1).is_none() && v.get_cloned(i + 1).is_some(), 2);
        chk(unsafe { v.iter_ref().count() } == n + 1 && v.get_cloned(i + 2).is_none(), 3);
        Unit
    });
    chk(v.len() == i + 2 && v.get_cloned(i + 1).is_some() && v.get_cloned(i + 2).is_none(), 4);
    reach(i as u32);
}
fn pre_<P: IntoConcurrentPinnedVec<CE<Unit>>>(v: &CV<Unit, P>, n: usize) {
    for i in 0..n {
        chk(v.push(Unit) == i, 9);
    }
}
seq!(s_c02_unit_l, unwritten(lin(), below(4)));
seq!(s_c02_unit_d, unwritten(dbl(), below(6)));
seq!(s_c02_unit_f, unwritten(VF::with_fixed_capacity(7), below(6)));

// ---- Debug while elements are written: fmt of the element type sees whole values only
pub struct Db(u64, u64);
impl core::fmt::Debug for Db {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        chk(self.0 == self.1, 1);
        out(5, got(5) * 10 + self.0);
        Ok(())
    }
}
struct Quiet;
impl core::fmt::Write for Quiet {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        Ok(())
    }
}
fn dbs<P: IntoConcurrentPinnedVec<CE<Db>>>(v: CV<Db, P>, n: u64) -> CV<Db, P> {
    for i in 0..n {
        v.push(Db(i + 1, i + 1));
    }
    v
}
fn shown<D: core::fmt::Debug>(d: D) {
    use core::fmt::Write;
    chk(write!(Quiet, "{:?}", d).is_ok(), 2);
}
macro_rules! db {
    ($($n:literal $ty:ty, $mk:expr, $w:expr, $r:expr, $x:expr;)*) => {
        $( conc2! { $n, $ty, { out(5, 0); $mk };
            |v: &$ty| { let g: fn(&$ty) = $w; g(v) },
            |v: &$ty| { let g: fn(&$ty) = $r; g(v) };
            |v| { let s = got(5); let ok: &[u64] = &$x; chk(ok.contains(&s), 3); reach(s as u32); drop(v) } } )*
    };
}
db! {
    "c02_db_1" VL<Db>, dbs(lin(), 2), |v| v[0].set(Db(7, 7)), |v| shown(v), [12, 72];
    "c02_db_2" VL<Db>, dbs(lin(), 3), |v| v[1].update(|x| { x.0 = 7; x.1 = 7 }), |v| shown(v), [123, 173];
    "c02_db_3" VL<Db>, dbs(lin(), 3), |v| { v[2].replace(Db(7, 7)); }, |v| shown(v.slice(1..)), [23, 27];
    "c02_db_4" VL<Db>, dbs(lin(), 2), |v| v[1].set(Db(7, 7)), |v| shown(&v[1]), [2, 7];
    "c02_db_5" VL<Db>, dbs(lin(), 2), |v| v.fill_with(|_| Db(7, 7)), |v| shown(v.as_slice()), [12, 17, 72, 77];
    "c02_db_6" VL<Db>, dbs(lin(), 1), |v| { v.push(Db(2, 2)); v.push(Db(3, 3)); }, |v| shown(v), [1, 12, 123];
    "c02_db_7" VD<Db>, dbs(dbl(), 3), |v| { v.extend([Db(4, 4), Db(5, 5)]); }, |v| shown(v), [123, 1234, 12345];
    "c02_db_8" VL<Db>, dbs(lin(), 2), |v| { v.swap(0, 1); }, |v| shown(v), [12, 21, 11, 22];
}
