//! C15: conversions preserve the sequence of elements
use crate::rt::*;
use orx_concurrent_option::ConcurrentOption;
use orx_concurrent_vec::*;

fn el<T>(x: T) -> CE<T> {
    CE::from(ConcurrentOption::some(x))
}
/// m values are added right after the last element
fn grow<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, l: &mut List, m: u64, id: u32) {
    let m = range(0, m);
    let x = any();
    if flag() {
        for i in 0..m {
            chk(v.push(T::mk(x ^ i as u64)) == l.n, id);
            l.push(x ^ i as u64);
        }
    } else {
        let at = l.n;
        chk(v.extend((0..m).map(|i| T::mk(x ^ i as u64))) == at, id + 1);
        for i in 0..m {
            l.push(x ^ i as u64);
        }
    }
    same(v, l.s(), id + 2);
}
/// a pinned vector which was filled before
fn from<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut p: P, lo: u64, hi: u64, m: u64) {
    let n = range(lo, hi);
    let max = p.capacity_state().maximum_concurrent_capacity();
    let mut l = List::new();
    for _ in 0..n {
        let x = any();
        l.push(x);
        p.push(el(T::mk(x)));
    }
    let v = CV::<T, P>::from(p);
    chk(v.maximum_capacity() >= max, 1);
    same(&v, l.s(), 10);
    grow(&v, &mut l, m, 20);
    // and out again
    let p = v.into_inner();
    chk(p.len() == l.n, 2);
    for i in 0..l.n {
        match p.get(i) {
            Some(e) => chk(e.map(|e| e.val()) == l.d[i], 3),
            None => chk(false, 4),
        }
    }
    chk(p.get(l.n).is_none(), 5);
    let v = CV::<T, P>::from(p);
    same(&v, l.s(), 40);
    if flag() {
        let mut k = 0;
        for x in v {
            chk(k < l.n && x.val() == l.d[k], 6);
            k += 1;
        }
        chk(k == l.n, 7);
    } else {
        let x = v.to_vec();
        chk(x.len() == l.n, 8);
        for i in 0..l.n {
            chk(x[i].val() == l.d[i], 9);
        }
    }
    chk(live() == 0, 50);
    reach(1);
}
seq!(s_c15_from_l, from::<u64, _>(PL::<u64>::with_linear_growth_and_fragments_capacity(1, 4), 0, q(5, 6), q(2, 2)));
seq!(s_c15_from_d, from::<u64, _>(PD::<u64>::with_doubling_growth_and_fragments_capacity(4), q(0, 0), q(7, 8), q(2, 4)));
seq!(s_c15_from_f, from::<u64, _>(PF::<u64>::new(7), 0, q(4, 5), q(2, 2)));
seq!(s_c15_from_lo, from::<Own, _>(PL::<Own>::with_linear_growth_and_fragments_capacity(1, 4), 0, q(4, 6), q(2, 2)));
seq!(s_c15_from_do, from::<Own, _>(PD::<Own>::new(), q(2, 0), q(5, 8), q(2, 4)));
seq!(s_c15_from_fo, from::<Own, _>(PF::<Own>::new(7), 0, q(3, 5), q(2, 2)));

/// collecting from iterators with exact, inexact and missing size hints
struct It<T> {
    l: List,
    at: usize,
    lo: usize,
    hi: Option<usize>,
    p: core::marker::PhantomData<T>,
}
impl<T: Elem> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at == self.l.n {
            return None;
        }
        self.at += 1;
        Some(T::mk(self.l.d[self.at - 1]))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}
fn collected<T: Elem>(lo: u64, hi: u64) {
    let n = range(lo, hi);
    let mut l = List::new();
    for _ in 0..n {
        l.push(any());
    }
    // every truthful size hint
    let a = range(0, n as u64);
    let b = range(n as u64, n as u64 + 2);
    let h = if flag() { Some(b) } else { None };
    let v: VD<T> = It { l, at: 0, lo: a, hi: h, p: core::marker::PhantomData }.collect();
    same(&v, l.s(), 10);
    grow(&v, &mut l, 1, 20);
    let mut k = 0;
    for x in v {
        chk(k < l.n && x.val() == l.d[k], 1);
        k += 1;
    }
    chk(k == l.n, 2);
    chk(live() == 0, 3);
    reach((h == Some(a)) as u32);
}
seq!(s_c15_collect, collected::<u64>(0, q(3, 5)));
seq!(s_c15_collect5, collected::<u64>(q(5, 6), q(5, 9)));
seq!(s_c15_collect_o, collected::<Own>(q(2, 0), q(3, 5)));

/// a clone is equal and shares nothing
fn cloned<T: Elem>(lo: u64, hi: u64) {
    let v = dbl::<T>();
    let mut l = filled(&v, lo, hi);
    let mut m = l;
    let w = v.clone();
    same(&w, m.s(), 10);
    let c = v.clone_to_vec();
    let x = any();
    // changes of one are not seen by the other
    if flag() {
        if l.n > 0 {
            let i = below(l.n as u64);
            v[i].set(T::mk(x));
            l.d[i] = x;
        }
        grow(&v, &mut l, 1, 20);
    } else {
        if m.n > 0 {
            let i = below(m.n as u64);
            w[i].update(|e| *e = T::mk(x));
            m.d[i] = x;
        }
        grow(&w, &mut m, 1, 30);
    }
    same(&v, l.s(), 50);
    same(&w, m.s(), 60);
    if flag() {
        drop(v);
        same(&w, m.s(), 70);
        drop(w);
    } else {
        let mut w = w;
        w.clear();
        same(&v, l.s(), 80);
        drop(w);
        drop(v);
    }
    let mut i = 0;
    while i < c.len() {
        let _ = c[i].val();
        i += 1;
    }
    drop(c);
    chk(live() == 0, 1);
    reach(1);
}
seq!(s_c15_clone, cloned::<u64>(0, q(3, 5)));
seq!(s_c15_clone5, cloned::<u64>(q(5, 6), q(5, 7)));
seq!(s_c15_clone_o, cloned::<Own>(q(2, 0), q(2, 5)));

/// out by every way, of every storage, at every fill level; the iterator may be left early
fn outs<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    match below(5) {
        0 => {
            let k = range(0, l.n as u64);
            let mut it = v.into_iter();
            for i in 0..k {
                chk(it.next().map(|x| x.val()) == Some(l.d[i]), 1);
            }
            if k == l.n {
                chk(it.next().is_none(), 2);
            }
        }
        1 => {
            let x = v.to_vec();
            chk(x.len() == l.n, 3);
            for i in 0..l.n {
                chk(x[i].val() == l.d[i], 4);
            }
        }
        2 => {
            let x = v.clone_to_vec();
            chk(x.len() == l.n, 5);
            for i in 0..l.n {
                chk(x[i].val() == l.d[i], 6);
            }
            same(&v, l.s(), 10);
            drop(v);
        }
        3 => {
            let b = range(0, l.n as u64);
            let a = range(0, b as u64);
            let x = v.slice(a..b).clone_to_vec();
            chk(x.len() == b - a, 7);
            for i in a..b {
                chk(x[i - a].val() == l.d[i], 8);
            }
            drop(v);
        }
        _ => {
            // into a vector with another storage
            let w: VD<T> = v.into_iter().collect();
            same(&w, l.s(), 20);
        }
    }
    chk(live() == 0, 9);
}
seq!(s_c15_outs_l, outs::<u64, _>(lin(), 0, q(5, 8)));
seq!(s_c15_outs_d, outs::<u64, _>(dbl(), 0, q(6, 9)));
seq!(s_c15_outs_f, outs::<u64, _>(fix(), 0, 5));
seq!(s_c15_outs_lo, outs::<Own, _>(lin(), 0, q(4, 8)));
seq!(s_c15_outs_do, outs::<Own, _>(dbl(), q(3, 0), q(5, 9)));
seq!(s_c15_outs_fo, outs::<Own, _>(fix(), 0, 5));
seq!(s_c15_outs_f0, outs::<Own, _>(VF::with_fixed_capacity(0), 0, 0));

// ---- what threads have added comes out of every conversion
fn outcome<P: IntoConcurrentPinnedVec<CE<Own>>>(v: Box<CV<Own, P>>, n: usize, total: usize) {
    // position k of the added ones, by their values
    let mut d = [0; 8];
    for i in 0..total {
        d[i] = v[i].map(|x| x.val());
    }
    chk(v.len() == total, 1);
    for s in 1..3 {
        chk(d[g(s)] == s, 2);
    }
    for i in 0..n {
        chk(d[i] == 100 + i as u64, 3);
    }
    let v = unbox(v);
    match below(3) {
        0 => {
            let x = v.to_vec();
            for i in 0..total {
                chk(x[i].val() == d[i], 4);
            }
            chk(x.len() == total, 5);
        }
        1 => {
            let mut k = 0;
            for x in v {
                chk(k < total && x.val() == d[k], 6);
                k += 1;
            }
            chk(k == total, 7);
        }
        _ => {
            let w = CV::<Own, P>::from(v.into_inner());
            chk(w.len() == total, 8);
            for i in 0..total {
                chk(w[i].map(|x| x.val()) == d[i], 9);
            }
            chk(w.push(own(5)) == total, 10);
        }
    }
    chk(live() == 0, 11);
    reach(got(1) as u32);
}
conc2! { "c15_pp", VL<Own>, o1(2); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| outcome(v, 2, 4) }
conc2! { "c15_ppd", VD<Own>, pre(dbl(), 3); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| outcome(v, 3, 5) }
conc2! { "c15_ppf", VF<Own>, pre(fix(), 1); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64); |v| outcome(v, 1, 3) }
conc2! { "c15_pe", VL<Own>, o1(1); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.extend([own(2), own(3)]) as u64); |v| outcome(v, 1, 4) }
// clones taken meanwhile hold a prefix of what was there
conc2! { "c15_cl", VD<Own>, pre(dbl(), 3); |v| { v.push(own(103)); v.push(own(104)); }, |v| { let c = v.clone(); let n = c.len(); chk(n >= 3 && n <= 5, 1); for i in 0..n { chk(c[i].map(|x| x.val()) == 100 + i as u64, 2) } out(1, n as u64) };
    |v| { reach(got(1) as u32); chk(v.len() == 5, 3); drop(v); chk(live() == 0, 4) } }
conc2! { "c15_ctv", VL<Own>, o1(2); |v| { v.push(own(102)); v[0].set(own(7)) }, |v| { let c = v.clone_to_vec(); let n = c.len(); chk(n == 2 || n == 3, 1); for i in 1..n { chk(c[i].val() == 100 + i as u64, 2) } let z = c[0].val(); chk(z == 100 || z == 7, 3); out(1, z + n as u64) };
    |v| { reach(got(1) as u32); chk(v.len() == 3, 4); drop(v); chk(live() == 0, 5) } }

// ---- large and over-aligned elements
seq!(s_c15_outs_bl, outs::<Big, _>(lin(), q(2, 0), q(3, 8)));
seq!(s_c15_outs_td, outs::<Tri, _>(dbl(), q(3, 0), q(5, 9)));
seq!(s_c15_clone_b, cloned::<Big>(q(2, 0), q(2, 5)));
seq!(s_c15_collect_b, collected::<Big>(q(2, 0), q(3, 5)));
seq!(s_c15_from_bf, from::<Big, _>(PF::<Big>::new(7), q(2, 0), q(3, 5), q(2, 2)));
seq!(s_c15_outs_w, outs::<Wide, _>(lin(), q(2, 0), q(3, 5)));
seq!(s_c15_collect_w, collected::<Wide>(q(2, 0), q(2, 4)));
