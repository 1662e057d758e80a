//! C11: every value is dropped or handed out exactly once
use crate::rt::*;
use core::sync::atomic::{AtomicUsize, Ordering};
use orx_concurrent_vec::*;

/// consumes the vector in one of all ways; every value which comes out is compared with the list, and at the end
/// nothing at all may be alive on the heap (a double drop or a use after drop is reported by the executor itself)
fn finish<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, l: &[u64], id: u32) {
    let n = l.len();
    let how = below(7);
    match how {
        0 => drop(v),
        1 => {
            let mut v = v;
            v.clear();
            chk(v.len() == 0, id);
            drop(v);
        }
        2 => {
            let p = v.into_inner();
            chk(p.len() == n, id + 1);
            drop(p);
        }
        3 => {
            let x = v.to_vec();
            chk(x.len() == n, id + 2);
            for i in 0..n {
                chk(x[i].val() == l[i], id + 3);
            }
        }
        4 => {
            // consumed up to any point
            let k = range(0, n as u64);
            let mut it = v.into_iter();
            for i in 0..k {
                match it.next() {
                    Some(x) => chk(x.val() == l[i], id + 4),
                    None => chk(false, id + 5),
                }
            }
            if k == n {
                chk(it.next().is_none() && it.next().is_none(), id + 6);
            }
        }
        5 => {
            let w = CV::<T, P>::from(v.into_inner());
            chk(w.len() == n, id + 7);
            drop(w);
        }
        _ => {
            let c = v.clone_to_vec();
            drop(v);
            for i in 0..n {
                chk(c[i].val() == l[i], id + 8);
            }
        }
    }
    chk(live() == 0, id + 9);
    reach(how as u32);
}
fn ends<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    finish(v, l.s(), 10);
}
seq!(s_c11_ends_l, ends::<Own, _>(lin(), 0, q(8, 8)));
seq!(s_c11_ends_d, ends::<Own, _>(dbl(), 0, q(7, 9)));
seq!(s_c11_ends_f, ends::<Own, _>(fix(), 0, 5));
seq!(s_c11_ends_f0, ends::<Own, _>(VF::with_fixed_capacity(0), 0, 0));
seq!(s_c11_ends_f1, ends::<Own, _>(VF::with_fixed_capacity(1), 0, 1));

/// values overwritten in place
fn over<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let mut l = filled(&v, lo, hi);
    let n = l.n as u64;
    let x = any();
    match below(9) {
        0 => {
            let i = below(n);
            v[i].set(T::mk(x));
            l.d[i] = x;
        }
        1 => {
            let i = below(n);
            let old = v[i].replace(T::mk(x));
            chk(old.val() == l.d[i], 1);
            l.d[i] = x;
        }
        2 => {
            let i = below(n);
            v[i].update(|e| *e = T::mk(x));
            l.d[i] = x;
        }
        3 => {
            let i = below(n);
            let mut old = None;
            v[i].update(|e| old = Some(core::mem::replace(e, T::mk(x))));
            chk(old.map(|o| o.val()) == Some(l.d[i]), 2);
            l.d[i] = x;
        }
        4 => {
            v.fill(T::mk(x));
            for i in 0..l.n {
                l.d[i] = x;
            }
        }
        5 => {
            v.fill_with(|i| T::mk(x ^ i as u64));
            for i in 0..l.n {
                l.d[i] = x ^ i as u64;
            }
        }
        6 => {
            let (i, j) = (below(n), below(n));
            chk(v.swap(i, j), 3);
            l.d.swap(i, j);
        }
        7 => {
            let b = range(0, n);
            let a = range(0, b as u64);
            let s = v.slice(a..b);
            s.fill(T::mk(x));
            for i in a..b {
                l.d[i] = x;
            }
        }
        _ => {
            // reads: clones are dropped, originals are not
            let i = below(n);
            let c = v.get_cloned(i);
            chk(c.map(|c| c.val()) == Some(l.d[i]), 4);
            let c = v[i].cloned();
            chk(c.val() == l.d[i], 5);
            chk(v.get_cloned(l.n).is_none(), 6);
            let mut k = 0;
            for c in v.iter_cloned() {
                chk(c.val() == l.d[k], 7);
                k += 1;
            }
            let r = v.reduce(|a, b| T::mk(a.val() ^ b.val()));
            chk(r.is_some(), 8);
            chk(v.contains(&T::mk(l.d[i])), 9);
        }
    }
    finish(v, l.s(), 10);
}
seq!(s_c11_over_l, over::<Own, _>(lin(), 1, q(4, 6)));
seq!(s_c11_over_d, over::<Own, _>(dbl(), q(5, 1), q(5, 6)));
seq!(s_c11_over_f, over::<Own, _>(fix(), 1, q(3, 5)));

/// growth in bulk, also from iterators which own more than is taken
fn bulk<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64, m: u64) {
    let mut l = filled(&v, lo, hi);
    let m = range(0, m);
    let x = any();
    let mut src = Vec::new();
    for i in 0..m {
        src.push(T::mk(x ^ i as u64));
        l.push(x ^ i as u64);
    }
    let at = l.n - m;
    match below(3) {
        0 => chk(v.extend(src) == at, 1),
        1 => {
            src.push(T::mk(1));
            chk(v.extend_n_items(src, m) == at, 2)
        }
        _ => chk(v.extend_for_idx(|_| src, m) == at, 3),
    }
    finish(v, l.s(), 10);
}
seq!(s_c11_bulk_l, bulk::<Own, _>(lin(), 0, q(3, 4), q(4, 4)));
seq!(s_c11_bulk_d, bulk::<Own, _>(dbl(), 2, q(5, 8), q(4, 5)));
seq!(s_c11_bulk_f, bulk::<Own, _>(fix(), 0, q(2, 2), 3));

/// calls which fail for lack of capacity: their values are dropped once, the vector keeps its own
fn fails<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, cap: u64, lo: u64) {
    let l = filled(&v, lo, cap);
    let room = cap as usize - l.n;
    let m = range(room as u64 + 1, room as u64 + 2);
    let mk = || {
        let mut s = Vec::new();
        for i in 0..m {
            s.push(T::mk(i as u64));
        }
        s
    };
    let p = match below(4) {
        0 => {
            assume(room == 0);
            panics(|| {
                v.push(T::mk(7));
            })
        }
        1 => {
            assume(room == 0);
            let y = T::mk(7);
            panics(|| {
                v.push_for_idx(|_| y);
            })
        }
        2 => panics(|| {
            v.extend(mk());
        }),
        _ => panics(|| {
            let s = mk();
            v.extend_for_idx(|_| s, m);
        }),
    };
    chk(p, 1);
    chk(v.len() == l.n, 2);
    finish(v, l.s(), 10);
}
seq!(s_c11_fails_l, fails::<Own, _>(VL::with_linear_growth(1, 2), 4, q(2, 0)));
seq!(s_c11_fails_f, fails::<Own, _>(VF::with_fixed_capacity(3), 3, 0));
seq!(s_c11_fails_f0, fails::<Own, _>(VF::with_fixed_capacity(0), 0, 0));

// large elements which own memory
seq!(s_c11_ends_w, ends::<Wide, _>(lin(), 0, q(3, 6)));
seq!(s_c11_over_w, over::<Wide, _>(lin(), 1, q(2, 3)));
seq!(s_c11_over_wd, over::<Wide, _>(dbl(), q(5, 4), 5));
seq!(s_c11_bulk_w, bulk::<Wide, _>(lin(), 0, q(2, 3), q(3, 4)));
seq!(s_c11_fails_w, fails::<Wide, _>(VL::with_linear_growth(1, 2), 4, q(3, 1)));

/// elements without size
pub struct Zst;
static NEW: AtomicUsize = AtomicUsize::new(0);
static GONE: AtomicUsize = AtomicUsize::new(0);
fn zst() -> Zst {
    NEW.fetch_add(1, Ordering::SeqCst);
    Zst
}
impl Drop for Zst {
    fn drop(&mut self) {
        GONE.fetch_add(1, Ordering::SeqCst);
    }
}
fn zsts<P: IntoConcurrentPinnedVec<CE<Zst>>>(v: CV<Zst, P>, hi: u64) {
    NEW.store(0, Ordering::SeqCst);
    GONE.store(0, Ordering::SeqCst);
    let n = range(0, hi);
    for _ in 0..n {
        v.push(zst());
    }
    chk(v.len() == n && GONE.load(Ordering::SeqCst) == 0, 1);
    if n > 0 {
        let i = below(n as u64);
        match below(3) {
            0 => v[i].set(zst()),
            1 => drop(v[i].replace(zst())),
            _ => v.fill_with(|_| zst()),
        }
    }
    match below(4) {
        0 => drop(v),
        1 => {
            let mut v = v;
            v.clear();
            chk(NEW.load(Ordering::SeqCst) == GONE.load(Ordering::SeqCst), 2);
        }
        2 => {
            let x = v.to_vec();
            chk(x.len() == n && NEW.load(Ordering::SeqCst) == GONE.load(Ordering::SeqCst) + n, 3);
        }
        _ => {
            let k = range(0, n as u64);
            let mut it = v.into_iter();
            for _ in 0..k {
                chk(it.next().is_some(), 4);
            }
        }
    }
    chk(NEW.load(Ordering::SeqCst) == GONE.load(Ordering::SeqCst), 5);
    chk(live() == 0, 6);
    reach(1);
}
seq!(s_c11_zst_l, zsts(lin(), q(3, 6)));
seq!(s_c11_zst_d, zsts(dbl(), q(5, 6)));
seq!(s_c11_zst_f, zsts(fix(), q(3, 5)));

// ---- concurrent: every interleaving ends with nothing left
fn done<P: IntoConcurrentPinnedVec<CE<Own>>>(v: Box<CV<Own, P>>) {
    drop(v);
    chk(live() == 0, 90);
}
conc2! { "c11_rr", VL<Own>, o1(1); |v| { let o = v[0].replace(own(1)); out(1, o.val()) }, |v| { let o = v[0].replace(own(2)); out(2, o.val()) };
    |v| {
        let (a, b, c) = (got(1), got(2), v[0].map(|x| x.val()));
        chk((a == 100 && b == 1 && c == 2) || (b == 100 && a == 2 && c == 1), 1);
        reach(a as u32);
        done(v)
    } }
conc2! { "c11_su", VL<Own>, o1(1); |v| v[0].set(own(1)), |v| v[0].update(|x| *x = own(2)); |v| { reach(v[0].map(|x| x.val()) as u32); done(v) } }
conc2! { "c11_sc", VL<Own>, o1(1); |v| v[0].set(own(1)), |v| { let o = v[0].cloned(); out(1, o.val()) }; |v| { reach(got(1) as u32); done(v) } }
conc2! { "c11_sg", VL<Own>, o1(1); |v| v[0].set(own(1)), |v| { let o = v.get_cloned(0); out(1, o.map(|o| o.val()).unwrap_or(7)) }; |v| { chk(got(1) != 7, 1); reach(got(1) as u32); done(v) } }
conc2! { "c11_pp", VL<Own>, o1(1); |v| { v.push(own(1)); }, |v| { v.push(own(2)); }; |v| { chk(v.len() == 3, 1); done(v) } }
conc2! { "c11_pe", VL<Own>, o1(1); |v| { v.push(own(1)); }, |v| { v.extend([own(2), own(3)]); }; |v| { chk(v.len() == 4, 1); done(v) } }
conc2! { "c11_pg", VD<Own>, pre(dbl(), 3); |v| { v.push(own(1)); v.push(own(4)); }, |v| { let o = v.get_cloned(3); out(1, o.map(|o| o.val()).unwrap_or(7)) };
    |v| { let x = unbox(v).to_vec(); chk(x.len() == 5 && x[4].val() == 4, 1); drop(x); reach(got(1) as u32); chk(live() == 0, 2) } }
conc2! { "c11_sw", VL<Own>, o1(2); |v| { v.swap(0, 1); }, |v| { v[0].set(own(1)) }; |v| { reach(v[0].map(|x| x.val()) as u32); done(v) } }
conc2! { "c11_ff", VL<Own>, o1(2); |v| v.fill(own(1)), |v| v.fill_with(|i| own(2 + i as u64)); |v| { let s = v[0].map(|x| x.val()) * 10 + v[1].map(|x| x.val()); reach(s as u32); done(v) } }
conc2! { "c11_it", VL<Own>, o1(2); |v| { let mut s = 0; for x in v.iter_cloned() { s += x.val() } out(1, s) }, |v| { v[1].set(own(0)); v.push(own(5)); };
    |v| { reach(got(1) as u32); let mut it = unbox(v).into_iter(); chk(it.next().map(|x| x.val()) == Some(100), 1); drop(it); chk(live() == 0, 2) } }

conc2! { "c11_w_su", VL<Wide>, w1(1); |v| v[0].set(wide(1)), |v| v[0].update(|x| *x = wide(2)); |v| { reach(v[0].map(|x| x.val()) as u32); drop(v); chk(live() == 0, 90) } }
conc2! { "c11_w_rr", VL<Wide>, w1(1); |v| { let o = v[0].replace(wide(1)); out(1, o.val()) }, |v| { let o = v[0].replace(wide(2)); out(2, o.val()) };
    |v| {
        let (a, b, c) = (got(1), got(2), v[0].map(|x| x.val()));
        chk((a == 100 && b == 1 && c == 2) || (b == 100 && a == 2 && c == 1), 1);
        reach(a as u32);
        drop(v);
        chk(live() == 0, 90)
    } }
conc2! { "c11_w_sw", VL<Wide>, w1(2); |v| { v.swap(0, 1); }, |v| { v[0].set(wide(1)) }; |v| { reach(v[0].map(|x| x.val()) as u32); drop(v); chk(live() == 0, 90) } }
conc2! { "c11_w_pg", VL<Wide>, w1(1); |v| { v.push(wide(1)); }, |v| { let o = v.get_cloned(1); out(1, o.map(|o| o.val()).unwrap_or(7)) };
    |v| { let x = unbox(v).to_vec(); chk(x.len() == 2 && x[1].val() == 1, 1); drop(x); reach(got(1) as u32); chk(live() == 0, 2) } }
