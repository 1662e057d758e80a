//! C07: slices and splits address exactly the requested positions
use crate::rt::*;
use core::ops::RangeBounds;
use orx_concurrent_vec::*;

/// s denotes exactly the positions a..b of v
fn denotes<P: IntoConcurrentPinnedVec<CE<u64>>>(s: &ConcurrentSlice<u64, P>, v: &CV<u64, P>, l: &[u64], a: usize, b: usize, id: u32) {
    chk(s.len() == b - a && s.is_empty() == (a == b), id);
    for i in 0..b - a {
        match s.get(i) {
            Some(e) => chk(core::ptr::eq(e, &v[a + i]) && *e == l[a + i], id + 1),
            None => chk(false, id + 2),
        }
        chk(core::ptr::eq(&s[i], &v[a + i]), id + 3);
    }
    let mut k = 0;
    for e in s.iter() {
        chk(k < b - a && core::ptr::eq(e, &v[a + k]), id + 4);
        k += 1;
    }
    chk(k == b - a, id + 5);
}
/// positions past the end of the slice are absent, even if the vector has an element there
fn absent<P: IntoConcurrentPinnedVec<CE<u64>>>(s: &ConcurrentSlice<u64, P>, n: usize, id: u32) {
    let i = any() as usize;
    assume(i >= n);
    chk(s.get(i).is_none() && s.get_cloned(i).is_none() && s.get_copied(i).is_none() && s.get_raw(i).is_none(), id);
    chk(panics(|| { let _ = &s[i]; }), id + 1);
    let j = any() as usize;
    chk(!s.swap(i, j) && !s.swap(j, i), id + 2);
}
/// the documented behaviour: both limits are clamped to the length, an inverted range is empty
fn clamp(a: usize, b: usize, n: usize) -> (usize, usize) {
    let b = if b < a { a } else { b };
    (if a > n { n } else { a }, if b > n { n } else { b })
}
fn rng<P: IntoConcurrentPinnedVec<CE<u64>>, R: RangeBounds<usize>>(v: &CV<u64, P>, l: &[u64], r: R, a: usize, b: usize) {
    let (c, d) = clamp(a, b, l.len());
    let s = v.slice(r);
    denotes(&s, v, l, c, d, 10);
    absent(&s, d - c, 20);
    if a <= b && b <= l.len() {
        reach(1);
    } else {
        reach(2);
    }
}
/// every form of range with arbitrary bounds
fn forms<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let (a, b) = (any() as usize, any() as usize);
    assume(b < usize::MAX);
    match below(6) {
        0 => rng(&v, l.s(), a..b, a, b),
        1 => {
            rng(&v, l.s(), a..=b, a, b + 1);
        }
        2 => rng(&v, l.s(), a.., a, l.n),
        3 => rng(&v, l.s(), ..b, 0, b),
        4 => rng(&v, l.s(), ..=b, 0, b + 1),
        _ => rng(&v, l.s(), .., 0, l.n),
    }
}
seq!(s_c07_forms_l, forms(lin(), 0, q(4, 8)));
seq!(s_c07_forms_d, forms(dbl(), 3, q(6, 9)));
seq!(s_c07_forms_f, forms(fix(), 0, q(4, 5)));

/// slices of slices
fn nested<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    let s = v.slice(a..b);
    let (c, d) = (any() as usize, any() as usize);
    assume(d < usize::MAX);
    let form = below(4);
    let (c, d) = match form {
        0 => (c, d),
        1 => (c, b - a),
        2 => (0, d),
        _ => (c, d + 1),
    };
    let t = match form {
        0 => s.slice(c..d),
        1 => s.slice(c..),
        2 => s.slice(..d),
        _ => s.slice(c..=d - 1),
    };
    let (x, y) = clamp(c, d, b - a);
    denotes(&t, &v, l.s(), a + x, a + y, 10);
    absent(&t, y - x, 20);
    reach((c <= d && d <= b - a) as u32);
    let f = s.slice(..);
    denotes(&f, &v, l.s(), a, b, 30);
}
seq!(s_c07_nested_l, nested(lin(), q(3, 0), q(4, 7)));
seq!(s_c07_nested_d, nested(dbl(), 5, q(5, 7)));
seq!(s_c07_nested_f, nested(fix(), q(3, 0), q(4, 5)));

fn splits<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let n = l.n;
    let mid = any() as usize;
    match below(4) {
        0 => {
            // of the vector
            let p = panics(|| {
                let (x, y) = v.split_at(mid);
                denotes(&x, &v, l.s(), 0, mid, 10);
                denotes(&y, &v, l.s(), mid, n, 20);
            });
            chk(p == (mid > n), 1);
            match v.split_first() {
                Some((e, s)) => {
                    chk(n > 0 && core::ptr::eq(e, &v[0]), 2);
                    denotes(&s, &v, l.s(), 1, n, 30);
                    reach(1);
                }
                None => chk(n == 0, 3),
            }
            match v.split_last() {
                Some((e, s)) => {
                    chk(n > 0 && core::ptr::eq(e, &v[n - 1]), 4);
                    denotes(&s, &v, l.s(), 0, n - 1, 40);
                }
                None => chk(n == 0, 5),
            }
            denotes(&v.as_slice(), &v, l.s(), 0, n, 50);
        }
        1 => {
            let b = range(0, n as u64);
            let a = range(0, b as u64);
            let z = v.slice(a..b);
            let p = panics(|| {
                let (x, y) = z.split_at(mid);
                denotes(&x, &v, l.s(), a, a + mid, 60);
                denotes(&y, &v, l.s(), a + mid, b, 70);
            });
            chk(p == (mid > b - a), 6);
            reach(2);
        }
        2 => {
            let b = range(0, n as u64);
            let a = range(0, b as u64);
            let z = v.slice(a..b);
            match z.split_first() {
                Some((e, s)) => {
                    chk(a < b && core::ptr::eq(e, &v[a]), 7);
                    denotes(&s, &v, l.s(), a + 1, b, 80);
                }
                None => chk(a == b, 8),
            }
            match z.split_last() {
                Some((e, s)) => {
                    chk(a < b && core::ptr::eq(e, &v[b - 1]), 9);
                    denotes(&s, &v, l.s(), a, b - 1, 90);
                }
                None => chk(a == b, 18),
            }
            reach(3);
        }
        _ => {
            let b = range(0, n as u64);
            let a = range(0, b as u64);
            let whole = a == 0 && b == n;
            let z = v.slice(a..b);
            let c = any() as usize;
            let p = panics(|| {
                let mut k = a;
                if whole {
                    let it = v.chunks(c);
                    chk(it.len() == n / c + (n % c > 0) as usize, 28);
                    for s in it {
                        let e = if b - k <= c { b } else { k + c };
                        chk(k < b, 19);
                        denotes(&s, &v, l.s(), k, e, 100);
                        k = e;
                    }
                } else {
                    let it = z.chunks(c);
                    chk(it.len() == (b - a) / c + ((b - a) % c > 0) as usize, 28);
                    for s in it {
                        let e = if b - k <= c { b } else { k + c };
                        chk(k < b, 19);
                        denotes(&s, &v, l.s(), k, e, 100);
                        k = e;
                    }
                }
                chk(k == b, 29);
            });
            chk(p == (c == 0), 39);
            reach(4);
        }
    }
}
seq!(s_c07_splits_l, splits(lin(), q(3, 0), q(4, 6)));
seq!(s_c07_splits_d, splits(dbl(), 5, q(5, 7)));
seq!(s_c07_splits_f, splits(fix(), 0, q(3, 5)));

/// a slice keeps its positions when the vector grows, and sees mutations of the vector and vice versa
fn keeps<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, lo: u64, hi: u64, more: u64) {
    let mut l = filled(&v, lo, hi);
    let n = l.n;
    let b = range(0, n as u64);
    let a = range(0, b as u64);
    let s = v.slice(a..b);
    let w = v.as_slice();
    let m = range(1, more);
    let x = any();
    for i in 0..m {
        v.push(x ^ i as u64);
        l.push(x ^ i as u64);
    }
    denotes(&s, &v, l.s(), a, b, 10);
    denotes(&w, &v, l.s(), 0, n, 20);
    absent(&s, b - a, 30);
    if b > a {
        let i = below((b - a) as u64);
        let y = any();
        s[i].set(y);
        chk(v[a + i] == y, 1);
        v[a + i].update(|z| *z ^= 1);
        chk(s.get_cloned(i) == Some(y ^ 1), 2);
        reach(1);
    }
}
seq!(s_c07_keeps_l, keeps(VL::with_linear_growth(1, 6), q(2, 0), 4, q(3, 4)));
seq!(s_c07_keeps_d, keeps(dbl(), 3, q(4, 6), q(2, 4)));
seq!(s_c07_keeps_f, keeps(VF::with_fixed_capacity(8), 2, 4, q(3, 4)));

// ---- concurrent: slices while the vector grows and while elements change
conc2! { "c07_grow", VL<u64>, l1(3); |v| { v.push(11); v.push(12); }, |v| {
        let s = v.slice(1..3);
        chk(s.len() == 2 && s[0] == 101 && s[1] == 102 && s.get(2).is_none(), 1);
        let (x, y) = s.split_at(1);
        chk(x.len() == 1 && y.len() == 1 && y[0] == 102 && y.get(1).is_none(), 2);
    }; |v| chk(v.len() == 5, 3) }
conc2! { "c07_as", VL<u64>, l1(1); |v| { v.extend([11, 12]); }, |v| {
        let s = v.as_slice();
        let n = s.len();
        chk(n >= 1 && n <= 3, 1);
        let k = s.iter().count();
        chk(k == n && s.get(n).is_none(), 2);
        let (e, r) = s.split_last().unwrap();
        chk(core::ptr::eq(e, &v[n - 1]) && r.len() == n - 1, 3);
        reach(n as u32);
    }; |v| chk(v.len() == 3, 4) }
conc2! { "c07_all", VL<u64>, l1(1); |v| { v.push(11); }, |v| {
        let s = v.slice(..);
        let (e, r) = v.split_first().unwrap();
        chk(*e == 100 && r.len() < 2, 1);
        let c = v.chunks(1).len();
        chk(c >= s.len() && c <= 2, 2);
        reach((s.len() * 10 + c) as u32);
    }; |v| chk(v.len() == 2, 4) }

/// slices of splits and chunks which are taken before the vector grows and used afterwards, also half way
fn midway<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, lo: u64, hi: u64, more: u64) {
    let mut l = filled(&v, lo, hi);
    let n = l.n;
    let c = range(1, hi + 1);
    let whole = v.as_slice();
    let parts = v.split_at(n / 2);
    let mut it = v.chunks(c);
    let mut it2 = whole.chunks(c);
    let first = flag();
    let mut k = 0;
    if first && n > 0 {
        denotes(&it.next().unwrap(), &v, l.s(), 0, c.min(n), 100);
        k = c.min(n);
    }
    let m = range(1, more);
    let x = any();
    for i in 0..m {
        v.push(x ^ i as u64);
        l.push(x ^ i as u64);
    }
    chk(it.len() == (n - k + c - 1) / c, 1);
    for s in it {
        let e = (k + c).min(n);
        chk(k < n, 2);
        denotes(&s, &v, l.s(), k, e, 100);
        k = e;
    }
    chk(k == n, 3);
    k = 0;
    for s in it2.by_ref() {
        let e = (k + c).min(n);
        chk(k < n, 4);
        denotes(&s, &v, l.s(), k, e, 100);
        k = e;
    }
    chk(k == n && it2.next().is_none(), 5);
    denotes(&parts.0, &v, l.s(), 0, n / 2, 100);
    chk(parts.1.len() >= n - n / 2 && parts.1.len() <= l.n - n / 2, 6);
    reach(1);
}
seq!(s_c07_midway_l, midway(VL::with_linear_growth(1, 6), 0, q(4, 5), q(2, 3)));
seq!(s_c07_midway_d, midway(dbl(), q(3, 2), q(4, 6), q(1, 3)));
