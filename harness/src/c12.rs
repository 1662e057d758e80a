//! C12: clear yields an empty vector that can be reused like a new one
use crate::rt::*;
use orx_concurrent_vec::*;

/// nothing is readable
fn empty<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, id: u32) {
    chk(v.len() == 0 && v.is_empty(), id);
    let i = any() as usize;
    chk(v.get(i).is_none() && v.get_cloned(i).is_none(), id + 1);
    chk(v.get_raw(i).is_none() && v.get_raw_mut(i).is_none(), id + 2);
    unsafe {
        chk(v.get_ref(i).is_none() && v.get_mut(i).is_none(), id + 3);
        chk(v.iter_ref().next().is_none() && v.iter_mut().next().is_none(), id + 4);
    }
    chk(v.iter().next().is_none() && v.iter_cloned().next().is_none(), id + 5);
    chk(v.as_slice().is_empty() && v.slice(..).len() == 0 && v.as_slice().get(0).is_none(), id + 6);
    chk(!v.swap(0, i), id + 7);
    chk(v.reduce(|a, _| a.clone()).is_none(), id + 8);
    chk(v.clone_to_vec().is_empty(), id + 9);
}
/// fill, clear, look, use again in any way, and look again
fn reuse<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut v: CV<T, P>, lo: u64, hi: u64, hi2: u64) {
    let max = v.maximum_capacity();
    filled(&v, lo, hi);
    if flag() {
        let _ = v.len();
    }
    v.clear();
    chk(v.maximum_capacity() == max && v.capacity() <= max, 1);
    empty(&v, 10);
    // growth starts at position 0 again
    let mut l = List::new();
    let n = range(0, hi2);
    let x = any();
    for i in 0..n {
        l.push(x ^ i as u64);
    }
    let d = l.d;
    match below(5) {
        0 => {
            for i in 0..n {
                chk(v.push(T::mk(d[i])) == i, 20);
            }
            reach(1);
        }
        1 => {
            for i in 0..n {
                chk(v.push_for_idx(|k| T::mk(d[k])) == i, 21);
            }
            reach(2);
        }
        2 => {
            chk(v.extend((0..n).map(|i| T::mk(d[i]))) == 0, 22);
            reach(3);
        }
        3 => {
            chk(v.extend_for_idx(|b| (b..b + n).map(|i| T::mk(d[i])), n) == 0, 23);
            reach(4);
        }
        _ => {
            chk(v.extend_n_items((0..n).map(|i| T::mk(d[i])), n) == 0, 24);
            reach(5);
        }
    }
    same(&v, l.s(), 30);
    let s = v.as_slice();
    chk(s.len() == n, 40);
    let mut k = 0;
    for r in unsafe { v.iter_ref() } {
        chk(r.val() == l.d[k], 41);
        k += 1;
    }
    chk(k == n, 42);
    ends(v, &l, max, x);
    chk(live() == 0, 90);
}
fn ends<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut v: CV<T, P>, l: &List, max: usize, x: u64) {
    let n = l.n;
    match below(5) {
        0 => {
            let x = v.to_vec();
            chk(x.len() == n, 43);
            for i in 0..n {
                chk(x[i].val() == l.d[i], 44);
            }
        }
        1 => {
            let mut k = 0;
            for x in v {
                chk(k < n && x.val() == l.d[k], 45);
                k += 1;
            }
            chk(k == n, 46);
        }
        2 => {
            let p = v.into_inner();
            chk(p.len() == n, 47);
            let w = CV::<T, P>::from(p);
            same(&w, l.s(), 50);
            chk(w.push(T::mk(x)) == n, 48);
        }
        3 => {
            v.clear();
            v.clear();
            empty(&v, 60);
            chk(v.push(T::mk(x)) == 0 && v[0].map(|y| y.val() == x), 49);
        }
        _ => {
            // (a fixed vector cannot be enlarged below its length; the maximum never shrinks)
            // doubling growth is at its limit from the beginning
            let more = max + if max < 1000 { 2 } else { 0 };
            let m = v.reserve_maximum_capacity(more);
            chk(m >= more && v.maximum_capacity() == m, 25);
            same(&v, l.s(), 70);
            chk(v.push(T::mk(x)) == n, 26);
        }
    }
}
seq!(s_c12_reuse_l, reuse::<u64, _>(lin(), 0, q(3, 8), q(4, 6)));
seq!(s_c12_reuse_l2, reuse::<u64, _>(lin(), q(6, 4), q(6, 8), q(2, 4)));
seq!(s_c12_reuse_d, reuse::<u64, _>(dbl(), 0, q(2, 6), q(3, 5)));
seq!(s_c12_reuse_d2, reuse::<u64, _>(dbl(), q(5, 4), q(6, 13), q(5, 5)));
seq!(s_c12_reuse_f, reuse::<u64, _>(fix(), 0, q(4, 5), q(4, 4)));
seq!(s_c12_reuse_f5, reuse::<u64, _>(fix(), 5, 5, 4));
seq!(s_c12_reuse_ol, reuse::<Own, _>(lin(), 0, q(3, 6), q(3, 4)));
seq!(s_c12_reuse_od, reuse::<Own, _>(dbl(), q(4, 0), q(5, 6), q(2, 5)));
seq!(s_c12_reuse_of, reuse::<Own, _>(fix(), 0, q(3, 5), q(2, 4)));

/// cleared after every other operation, also on a vector which came from elsewhere
fn after<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, lo: u64, hi: u64, full: bool) {
    let l = filled(&v, lo, hi);
    let n = l.n as u64;
    let mut v = v;
    let x = any();
    match below(6) {
        0 => {
            if n > 0 {
                v[below(n)].set(own(x));
            }
        }
        1 => v.fill(own(x)),
        2 => {
            let max = v.maximum_capacity();
            v.reserve_maximum_capacity(max + (max < 1000) as usize);
            v.push(own(x));
        }
        3 => v = CV::<Own, P>::from(v.into_inner()),
        4 => {
            // a growth call which failed
            if full {
                let p = panics(|| {
                    for i in 0..10 {
                        v.push(own(i));
                    }
                });
                chk(p, 1);
            }
        }
        _ => {
            let p = panics(|| {
                v.push_for_idx(|_| {
                    boom();
                    own(1)
                });
            });
            chk(p, 2);
        }
    }
    v.clear();
    empty(&v, 10);
    chk(v.push(own(x)) == 0 && v.push(own(x)) == 1, 3);
    chk(v.len() == 2 && v[1].map(|e| e.val() == x), 4);
    v.clear();
    empty(&v, 20);
    drop(v);
    chk(live() == 0, 90);
    reach(1);
}
seq!(s_c12_after_l, after(lin(), 0, q(4, 7), true));
seq!(s_c12_after_d, after(dbl(), q(3, 0), q(5, 7), false));
seq!(s_c12_after_f, after(fix(), 0, q(4, 4), true));

// ---- cleared after threads have used the vector, and used by threads afterwards
fn cl<P: IntoConcurrentPinnedVec<CE<Own>>>(v: Box<CV<Own, P>>) {
    let mut v = unbox(v);
    v.clear();
    empty(&v, 10);
    chk(v.push(own(5)) == 0 && v.len() == 1 && v[0].map(|x| x.val() == 5), 1);
    drop(v);
    chk(live() == 0, 2);
}
fn cleared<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, n: u64) -> CV<Own, P> {
    let mut v = pre(v, n);
    v.clear();
    v
}
conc2! { "c12_pp", VL<Own>, o1(1); |v| { v.push(own(1)); }, |v| { v.push(own(2)); }; |v| cl(v) }
conc2! { "c12_pd", VD<Own>, pre(dbl(), 3); |v| { v.push(own(1)); }, |v| { v.push(own(2)); }; |v| cl(v) }
conc2! { "c12_el", VL<Own>, o1(1); |v| { v.extend([own(1), own(2)]); }, |v| out(1, v.len() as u64); |v| { reach(got(1) as u32); cl(v) } }
conc2! { "c12_again", VL<Own>, cleared(lin(), 3); |v| out(1, v.push(own(1)) as u64), |v| out(2, v.push(own(2)) as u64);
    |v| { chk(g(1) + g(2) == 1 && v[g(1)].map(|x| x.val() == 1) && v[g(2)].map(|x| x.val() == 2), 1); chk(v.len() == 2, 2); reach(g(1) as u32); cl(v) } }
conc2! { "c12_read", VL<Own>, cleared(lin(), 3); |v| { v.push(own(1)); }, |v| { let r = v.get_cloned(0).map(|x| x.val()).unwrap_or(7); chk(r == 1 || r == 7, 1); out(1, r); chk(v.get_cloned(1).is_none(), 2) };
    |v| { reach(got(1) as u32); cl(v) } }
conc2! { "c12_len", VD<Own>, cleared(dbl(), 5); |v| { v.push(own(1)); v.push(own(2)); }, |v| { let n = v.len(); chk(n <= 2, 1); out(1, n as u64); for e in v.iter() { e.map(|x| x.val()); } };
    |v| { reach(got(1) as u32); cl(v) } }
conc2! { "c12_fix", VF<Own>, cleared(fix(), 5); |v| { v.push(own(1)); v.push(own(3)); }, |v| { v.extend([own(2), own(4), own(5)]); }; |v| { chk(v.len() == 5, 1); cl(v) } }

// ---- large and over-aligned elements
seq!(s_c12_reuse_bl, reuse::<Big, _>(lin(), q(2, 0), q(3, 6), q(2, 4)));
seq!(s_c12_reuse_tf, reuse::<Tri, _>(fix(), q(3, 0), q(3, 5), q(2, 4)));

/// positions which were lost by a panic of user code, and elements behind them: all are gone after clear
fn lost<P: IntoConcurrentPinnedVec<CE<Own>>>(mut v: CV<Own, P>, n: u64) {
    let max = v.maximum_capacity();
    let n = range(1, n) as usize;
    let h = below(n as u64);
    let base = live();
    for i in 0..n {
        if i == h {
            chk(panics(|| { v.push_for_idx(|_| panic!("user")); }), 1);
        } else {
            chk(v.push(own(i as u64)) == i, 2);
        }
    }
    if flag() {
        chk(v.len() == h, 3);
    }
    v.clear();
    chk(v.maximum_capacity() == max, 4);
    empty(&v, 10);
    for i in 0..n {
        chk(v.push(own(i as u64)) == i && v.len() == i + 1, 5);
    }
    if flag() {
        v.clear();
        empty(&v, 30);
    }
    drop(v);
    chk(live() == 0 && base >= live(), 6);
    reach(1);
}
seq!(s_c12_lost_l, lost(lin(), q(4, 6)));
seq!(s_c12_lost_d, lost(dbl(), q(5, 6)));
seq!(s_c12_lost_f, lost(fix(), q(4, 5)));
seq!(s_c12_reuse_w, reuse::<Wide, _>(lin(), q(2, 0), q(3, 5), q(2, 3)));
