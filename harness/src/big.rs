//! Vectors of many elements, across several fragments: behaviour which differs only beyond the sizes of the
//! other harnesses. The sizes are concrete (a few per harness); values and the examined positions are arbitrary.
use crate::rt::*;
use orx_concurrent_vec::*;

/// eight fragments of 16 elements
pub fn lin16<T>() -> VL<T> {
    VL::with_linear_growth(4, 8)
}
pub fn fixn<T>(n: usize) -> VF<T> {
    VF::with_fixed_capacity(n)
}
pub fn one_of(ns: &[usize]) -> usize {
    ns[below(ns.len() as u64)]
}
#[derive(Clone, Copy)]
pub struct Seq {
    pub x: u64,
    pub n: usize,
}
impl Seq {
    pub fn at(&self, i: usize) -> u64 {
        self.x ^ i as u64
    }
    pub fn get(&self, i: usize) -> Option<u64> {
        if i < self.n {
            Some(self.at(i))
        } else {
            None
        }
    }
}
/// n elements: some pushed, the others added by one extend
pub fn grown<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, n: usize) -> Seq {
    let s = Seq { x: any(), n };
    let k = n / 3;
    for i in 0..k {
        chk(v.push(T::mk(s.at(i))) == i, 900);
    }
    chk(v.extend((k..n).map(|i| T::mk(s.at(i)))) == k, 901);
    s
}
/// the vector holds exactly the sequence
pub fn is<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, s: Seq, id: u32) {
    chk(v.len() == s.n, id);
    let mut k = 0;
    for e in v.iter() {
        chk(k < s.n && e.map(|x| x.val()) == s.at(k), id + 1);
        k += 1;
    }
    chk(k == s.n, id + 2);
    chk(v.get(s.n).is_none() && v.get_cloned(s.n).is_none(), id + 3);
    for i in 0..s.n {
        chk(v.get(i).map(|e| e.map(|x| x.val())) == Some(s.at(i)), id + 4);
    }
}

#[cfg(feature = "c01")]
mod c01 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: usize) {
        let s = Seq { x: any(), n };
        let mut at = 0;
        let mut step = 0usize;
        // every growth operation in turn, with growing numbers of values
        while at < n {
            let k = [1, 5, 19, 2, 33][step % 5].min(n - at);
            let i = match step % 5 {
                0 => v.push(T::mk(s.at(at))),
                1 => v.extend((at..at + k).map(|i| T::mk(s.at(i)))),
                2 => v.extend_for_idx(|b| (b..b + k).map(|i| T::mk(s.at(i))), k),
                3 => {
                    let j = v.push_for_idx(|i| T::mk(s.at(i)));
                    chk(j == at, 1);
                    v.push_for_idx(|i| T::mk(s.at(i))) - 1
                }
                _ => v.extend_n_items((at..).map(|i| T::mk(s.at(i))), k),
            };
            chk(i == at, 2);
            at += if step % 5 == 3 { 2 } else { k };
            step += 1;
        }
        chk(at == n, 3);
        is(&v, s, 10);
        drop(v);
        chk(live() == 0, 4);
        reach(1);
    }
    seq!(s_c01_big_l, f(lin16::<u64>(), one_of(&[31, 47, 64, 100, 128])));
    seq!(s_c01_big_d, f(dbl::<u64>(), one_of(&[28, 60, 61, 124, 125, 252, 300])));
    seq!(s_c01_big_f, f(fixn::<Own>(100), 100));
    /// a growth call whose iterator itself pushes to the vector, early or late: the values of the call stay together
    fn nested<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        let x = any();
        let k = one_of(&[0, 1, 15, 16, 17, 31, 32, 33, n - 1]);
        let mut inner = None;
        let mut c = 0;
        let vv = &v;
        let way = below(3);
        let i = {
            let it = (0..n).map(|q| {
                if q == k {
                    inner = Some(vv.push(x ^ 1000));
                }
                c += 1;
                x ^ q as u64
            });
            match way {
                0 => vv.extend(it),
                1 => vv.extend_n_items(it, n),
                _ => vv.extend_for_idx(|_| it, n),
            }
        };
        chk(c == n && v.len() == n + 1, 11);
        for q in 0..n {
            chk(v.get_cloned(i + q) == Some(x ^ q as u64), 12);
        }
        let j = inner.unwrap_or(usize::MAX);
        chk(v.get_cloned(j) == Some(x ^ 1000) && (j < i || j >= i + n), 13);
        reach(way as u32);
    }
    seq!(s_c01_big_nest_l, nested(lin16(), 70));
    seq!(s_c01_big_nest_d, nested(dbl(), 40));
    seq!(s_c01_big_nest_f, nested(fixn(80), 66));

}
#[cfg(feature = "c03")]
mod c03 {
    use super::*;
    fn f<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        let x = any();
        for i in 0..n {
            v.push(x ^ i as u64);
            if i % 7 == 0 {
                chk(v.len() == i + 1 && !v.is_empty(), 1);
            }
        }
        let s = Seq { x, n };
        let j = any() as usize;
        assume(j < n);
        // while an element is accessed by this thread
        v[j].map(|_| {
            chk(v.len() == n && v.as_slice().len() == n, 2);
            chk(v.get(n - 1).is_some() && v.get(n).is_none(), 3);
            chk(v.iter().count() == n, 4);
        });
        is(&v, s, 10);
        reach(1);
    }
    seq!(s_c03_big_l, f(lin16::<u64>(), one_of(&[33, 65, 128])));
    seq!(s_c03_big_d, f(dbl::<u64>(), 61));
    seq!(s_c03_big_f, f(fixn::<u64>(40), 40));
}
#[cfg(feature = "c07")]
mod c07 {
    use super::*;
    fn denotes<P: IntoConcurrentPinnedVec<CE<u64>>>(s: &ConcurrentSlice<u64, P>, v: &CV<u64, P>, a: usize, b: usize, id: u32) {
        chk(s.len() == b - a, id);
        let i = any() as usize;
        match s.get(i) {
            Some(e) => chk(i < b - a && core::ptr::eq(e, &v[a + i]), id + 1),
            None => chk(i >= b - a, id + 2),
        }
        let mut k = 0;
        for e in s.iter() {
            chk(k < b - a && core::ptr::eq(e, &v[a + k]), id + 3);
            k += 1;
        }
        chk(k == b - a, id + 4);
    }
    fn f<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        grown(&v, n);
        let a = one_of(&[0, 13, 35]);
        let b = one_of(&[35, 41, n]);
        let s = v.slice(a..b);
        match below(4) {
            0 => denotes(&s, &v, a, b, 10),
            1 => {
                let m = one_of(&[0, 3, b - a]).min(b - a);
                let (l, r) = s.split_at(m);
                denotes(&l, &v, a, a + m, 20);
                denotes(&r, &v, a + m, b, 30);
                let t = s.slice(m..);
                denotes(&t, &v, a + m, b, 40);
            }
            2 => {
                let whole = flag();
                let (a, b) = if whole { (0, n) } else { (a, b) };
                let s = v.slice(a..b);
                let c = one_of(&[1, 8, 17, 32, n, usize::MAX]);
                let mut at = a;
                let it = s.chunks(c);
                let num = it.len();
                chk(num == (b - a).div_ceil(c), 50);
                let mut k = 0;
                for t in it {
                    let len = c.min(b - at);
                    chk(t.len() == len && len > 0, 51);
                    chk(core::ptr::eq(&t[0], &v[at]) && core::ptr::eq(&t[len - 1], &v[at + len - 1]), 52);
                    at += len;
                    k += 1;
                }
                chk(at == b && k == num, 53);
            }
            _ => match (s.split_first(), s.split_last()) {
                (Some((x, r)), Some((y, l))) => {
                    chk(core::ptr::eq(x, &v[a]) && core::ptr::eq(y, &v[b - 1]), 60);
                    denotes(&r, &v, a + 1, b, 61);
                    denotes(&l, &v, a, b - 1, 70);
                }
                (None, None) => chk(a == b, 80),
                _ => chk(false, 81),
            },
        }
        reach(1);
    }
    fn whole<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        grown(&v, n);
        let c = one_of(&[1, 16, 17, 64, n, usize::MAX]);
        let mut at = 0;
        for t in v.chunks(c) {
            let len = c.min(n - at);
            chk(t.len() == len && len > 0, 1);
            chk(core::ptr::eq(&t[len - 1], &v[at + len - 1]), 2);
            at += len;
        }
        chk(at == n, 3);
        let m = one_of(&[0, 16, 31, n]);
        let (l, r) = v.split_at(m);
        chk(l.len() == m && r.len() == n - m, 4);
        chk(m == n || core::ptr::eq(&r[0], &v[m]), 5);
        reach(1);
    }
    seq!(s_c07_big_l, f(lin16::<u64>(), 43));
    seq!(s_c07_big_d, f(dbl::<u64>(), 61));
    seq!(s_c07_big_wl, whole(lin16::<u64>(), 128));
    seq!(s_c07_big_wf, whole(fixn::<u64>(257), 257));
}
#[cfg(feature = "c08")]
mod c08 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: usize) {
        let s = grown(&v, n);
        let i = any() as usize;
        match below(3) {
            0 => {
                chk(v.get_cloned(i).map(|x| x.val()) == s.get(i), 1);
                let mut x = None;
                let p = panics(|| x = Some(v[i].map(|e| e.val())));
                chk(p == (i >= n) && x == s.get(i), 2);
            }
            1 => {
                let t = s.x ^ i as u64;
                let want = if i < n { Some(i) } else { None };
                chk(v.index_of(&T::mk(t)) == want, 3);
                reach(if want.is_some() { 2 } else { 3 });
            }
            _ => {
                let t = s.x ^ i as u64;
                chk(v.slice(1..n - 1).contains(&T::mk(t)) == (i >= 1 && i < n - 1), 4);
                reach(4);
            }
        }
        reach(1);
    }
    fn g<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        let s = grown(&v, n);
        is(&v, s, 20);
        let mut want = 7u64;
        for i in 0..n {
            want = want.wrapping_add(s.at(i)) ^ 3;
        }
        chk(v.fold(7u64, |a, x| a.wrapping_add(*x) ^ 3) == want, 1);
        let mut want = s.at(0);
        for i in 1..n {
            want = want.wrapping_add(s.at(i)) ^ 3;
        }
        chk(v.reduce(|a, x| a.wrapping_add(*x) ^ 3) == Some(want), 2);
        let mut k = 0;
        for x in v.iter_cloned() {
            chk(x == s.at(k), 3);
            k += 1;
        }
        chk(k == n, 4);
        k = 0;
        for x in v.map(|x| *x ^ 1) {
            chk(x == s.at(k) ^ 1, 5);
            k += 1;
        }
        chk(k == n, 6);
        chk(v.filter(|_| true).count() == n && v.filter(|_| false).count() == 0, 7);
        let w = v.slice(1..n - 1);
        k = 1;
        for x in w.iter_cloned() {
            chk(x == s.at(k), 8);
            k += 1;
        }
        chk(k == n - 1, 9);
        let (c, d) = (v.clone_to_vec(), w.clone_to_vec());
        chk(c.len() == n && d.len() == n - 2, 10);
        let i = below(n as u64);
        chk(c[i] == s.at(i), 11);
        chk(i == 0 || i == n - 1 || d[i - 1] == s.at(i), 12);
        reach(1);
    }
    seq!(s_c08_big_l, f(lin16::<u64>(), 70));
    seq!(s_c08_big_d, f(dbl::<Own>(), 34));
    seq!(s_c08_big_f, f(fixn::<u64>(48), 48));
    seq!(s_c08_bigg_l, g(lin16::<u64>(), 128));
    seq!(s_c08_bigg_d, g(dbl::<u64>(), 190));
}
#[cfg(feature = "c09")]
mod c09 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: usize) {
        let s = grown(&v, n);
        let whole = flag();
        let (a, b) = if whole { (0, n) } else { (one_of(&[0, 5]), one_of(&[33, n - 1, n])) };
        let y = any();
        let what = below(3);
        match what {
            0 => {
                if whole {
                    v.fill(T::mk(y));
                } else {
                    v.slice(a..b).fill(T::mk(y));
                }
            }
            1 => {
                let mut k = 0;
                let mut g = |i: usize| {
                    chk(i == k, 1);
                    k += 1;
                    T::mk(y ^ i as u64)
                };
                if whole {
                    v.fill_with(&mut g);
                } else {
                    v.slice(a..b).fill_with(&mut g);
                }
                chk(k == b - a, 2);
            }
            _ => {
                let (i, j) = (one_of(&[0, 15, 16]), one_of(&[17, 27, 32]));
                chk(if whole { v.swap(i, j) } else { v.slice(a..b).swap(i, j) } == (j < b - a), 3);
                chk(v.len() == n, 4);
                for k in 0..n {
                    let w = match k {
                        k if j < b - a && k == a + i => a + j,
                        k if j < b - a && k == a + j => a + i,
                        k => k,
                    };
                    chk(v[k].map(|x| x.val()) == s.at(w), 5);
                }
                reach(3);
                return;
            }
        }
        chk(v.len() == n, 6);
        let mut k = 0;
        for e in v.iter() {
            let want = match (k >= a && k < b, what) {
                (false, _) => s.at(k),
                (_, 0) => y,
                _ => y ^ (k - a) as u64,
            };
            chk(e.map(|x| x.val()) == want, 7);
            k += 1;
        }
        chk(k == n, 8);
        reach(what as u32 + 1);
    }
    seq!(s_c09_big_l, f(lin16::<u64>(), 67));
    seq!(s_c09_big_d, f(dbl::<u64>(), 133));
    seq!(s_c09_big_f, f(fixn::<Own>(40), 40));
}
#[cfg(feature = "c10")]
mod c10 {
    use super::*;
    fn f(v: VD<u64>, w: VD<u64>) {
        let s = grown(&v, 40);
        let k = one_of(&[39, 40, 41]);
        // equal up to one position, or nowhere different
        let p = one_of(&[0, 31, 32, 38, 39, 100]);
        let d = any();
        let at = |i: usize| if i == p { s.at(i) ^ d } else { s.at(i) };
        for i in 0..k {
            w.push(at(i));
        }
        let same = k == 40 && (p >= 40 || d == 0);
        let a: [u64; 40] = core::array::from_fn(at);
        chk((v == a) == (p >= 40 || d == 0), 1);
        chk((w.as_slice() == v.as_slice()) == same, 2);
        chk((v.slice(..) == a[..k.min(40)]) == (k >= 40 && (p >= 40 || d == 0)), 3);
        // shifted by one
        let (x, y) = (w.slice(1..), v.slice(1..));
        chk((x == y) == (k == 40 && (p == 0 || p >= 40 || d == 0)), 4);
        reach(same as u32);
    }
    seq!(s_c10_big_d, f(dbl::<u64>(), dbl::<u64>()));
}
#[cfg(feature = "c11")]
mod c11 {
    use super::*;
    fn f<P: IntoConcurrentPinnedVec<CE<Own>>>(mut v: CV<Own, P>, n: usize) {
        let s = grown(&v, n);
        let before = live();
        match below(6) {
            0 => drop(v),
            1 => {
                v.clear();
                v.push(own(3));
                drop(v);
            }
            2 => {
                let k = one_of(&[0, 17, n]);
                let mut it = v.into_iter();
                for i in 0..k {
                    match it.next() {
                        Some(x) => chk(x.val() == s.at(i), 3),
                        None => chk(false, 4),
                    }
                }
                chk(k < n || it.next().is_none(), 5);
            }
            3 => {
                let x = v.to_vec();
                chk(x.len() == n && x[n - 1].val() == s.at(n - 1), 6);
            }
            4 => {
                v.fill(own(1));
                chk(live() == before, 7);
                v.slice(3..n - 2).fill(own(1));
                chk(live() == before, 8);
                drop(v);
            }
            _ => {
                let w = v.clone_to_vec();
                drop(v);
                chk(w.len() == n && w[n - 1].val() == s.at(n - 1), 9);
            }
        }
        chk(live() == 0, 20);
        reach(1);
    }
    seq!(s_c11_big_l, f(lin16::<Own>(), one_of(&[34, 64, 128])));
    seq!(s_c11_big_d, f(dbl::<Own>(), one_of(&[28, 45, 124, 129])));
    seq!(s_c11_big_f, f(fixn::<Own>(40), 33));
}
#[cfg(feature = "c15")]
mod c15 {
    use super::*;
    fn check<I: Iterator<Item = u64>>(mut it: I, s: Seq, id: u32) {
        for i in 0..s.n {
            chk(it.next() == Some(s.at(i)), id);
        }
        chk(it.next().is_none(), id + 1);
    }
    fn f<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
        let mut s = grown(&v, n);
        match below(3) {
            0 => check(v.into_iter(), s, 1),
            1 => {
                let x = v.to_vec();
                chk(x.len() == n, 3);
                check(x.into_iter(), s, 4);
            }
            _ => {
                let p = v.into_inner();
                chk(p.len() == n, 6);
                let v = CV::<u64, P>::from(p);
                is(&v, s, 10);
                chk(v.push(s.at(n)) == n, 7);
                chk(v.extend((n + 1..n + 4).map(|i| s.at(i))) == n + 1, 8);
                s.n = n + 4;
                check(v.clone_to_vec().into_iter(), s, 20);
                check(v.to_vec().into_iter(), s, 22);
            }
        }
        reach(1);
    }
    fn c(n: usize) {
        let x = any();
        let mut s = Seq { x, n };
        let v: VD<u64> = match below(3) {
            0 => (0..n).map(|i| s.at(i)).collect(),
            1 => (0..n).map(|i| s.at(i)).filter(|_| true).collect(),
            // an exact lower and an unknown upper bound
            _ => {
                let mut i = 0;
                core::iter::from_fn(|| {
                    i += 1;
                    if i <= n {
                        Some(s.at(i - 1))
                    } else {
                        None
                    }
                })
                .collect()
            }
        };
        is(&v, s, 10);
        let w = v.clone();
        v.fill(0);
        is(&w, s, 20);
        chk(w.push(s.at(n)) == n, 1);
        s.n = n + 1;
        check(w.clone_to_vec().into_iter(), s, 2);
        check(w.into_iter(), s, 4);
        reach(1);
    }
    seq!(s_c15_big_l, f(lin16::<u64>(), one_of(&[16, 33, 64, 100])));
    seq!(s_c15_big_d, f(dbl::<u64>(), one_of(&[28, 61, 124, 129])));
    seq!(s_c15_big_f, f(fixn::<u64>(50), 46));
    seq!(s_c15_big_c, c(one_of(&[15, 16, 17, 28, 31, 32, 33])));
    seq!(s_c15_big_k, c(one_of(&[60, 64, 65, 100, 129])));
}
#[cfg(feature = "c16")]
mod c16 {
    use super::*;
    fn f<P: IntoConcurrentPinnedVec<CE<u64>>>(mut v: CV<u64, P>, n: usize, m: usize) {
        let mut s = grown(&v, n);
        let before = v.maximum_capacity();
        let new = v.reserve_maximum_capacity(m);
        chk(new >= m && new >= before && v.maximum_capacity() == new, 1);
        is(&v, s, 10);
        let k = m.min(n + 40);
        chk(v.extend((n..k).map(|i| s.at(i))) == n, 2);
        s.n = k;
        is(&v, s, 20);
        reach(1);
    }
    seq!(s_c16_big_l, f(VL::with_linear_growth(3, 5), 40, 77));
    seq!(s_c16_big_d, f(dbl::<u64>(), one_of(&[28, 30, 124]), 400));
    seq!(s_c16_big_f, f(fixn::<u64>(33), 33, 70));
}
#[cfg(feature = "c18")]
mod c18 {
    use super::*;
    fn f<P: IntoConcurrentPinnedVec<CE<u64>>>(mut v: CV<u64, P>, n: usize) {
        let s = grown(&v, n);
        let i = any() as usize;
        let want = s.get(i);
        match below(3) {
            0 => unsafe {
                chk(v.get_raw(i).map(|p| *p) == want, 1);
                chk(v.get_raw_mut(i).map(|p| *p) == want, 2);
                chk(v.get_ref(i).copied() == want, 3);
                chk(v.get_mut(i).map(|x| *x) == want, 4);
            },
            1 => unsafe {
                let mut k = 0;
                for x in v.iter_ref() {
                    chk(*x == s.at(k), 5);
                    k += 1;
                }
                chk(k == n, 6);
                k = 0;
                for x in v.iter_mut() {
                    chk(*x == s.at(k), 7);
                    k += 1;
                }
                chk(k == n, 8);
            },
            _ => unsafe {
                let w = v.slice(3..n - 1);
                let want = if i < n - 4 { Some(s.at(i + 3)) } else { None };
                chk(w.get_raw(i).map(|p| *p) == want, 11);
                chk(w.get_raw_mut(i).map(|p| *p) == want, 12);
                chk(w.get_ref(i).copied() == want, 13);
                chk(w.get_mut(i).map(|x| *x) == want, 14);
                let mut k = 3;
                for x in w.iter_ref() {
                    chk(*x == s.at(k), 15);
                    k += 1;
                }
                chk(k == n - 1, 16);
                k = 3;
                for x in w.iter_mut() {
                    chk(*x == s.at(k), 17);
                    k += 1;
                }
                chk(k == n - 1, 18);
            },
        }
        reach(1);
    }
    seq!(s_c18_big_l, f(lin16::<u64>(), 65));
    seq!(s_c18_big_d, f(dbl::<u64>(), 61));
    seq!(s_c18_big_f, f(fixn::<u64>(40), 36));
}
#[cfg(feature = "c05")]
mod c05 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: usize) {
        let s = grown(&v, n);
        let i = one_of(&[0, 15, 16, 27, 28, n - 2, n - 1, n]);
        let j = one_of(&[0, 16, 31, 32, n - 1, n, usize::MAX]);
        let on_slice = flag();
        let r = if on_slice { v.as_slice().swap(i, j) } else { v.swap(i, j) };
        chk(r == (i < n && j < n), 1);
        for k in 0..n {
            let w = match r {
                true if k == i => j,
                true if k == j => i,
                _ => k,
            };
            chk(v[k].map(|x| x.val()) == s.at(w), 2);
        }
        chk(v.len() == n, 3);
        reach(r as u32);
    }
    seq!(s_c05_big_l, f(lin16::<u64>(), 40));
    seq!(s_c05_big_d, f(dbl::<u64>(), 70));
    seq!(s_c05_big_f, f(fixn::<Own>(40), 40));
}
#[cfg(feature = "c06")]
mod c06 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n0: usize, n: usize) {
        let s = grown(&v, n0);
        let mut a = [core::ptr::null(); 320];
        for i in 0..n0 {
            a[i] = &v[i] as *const CE<T>;
        }
        let all = v.as_slice();
        let x = any();
        match below(3) {
            0 => chk(v.extend((n0..n).map(|i| T::mk(x ^ i as u64))) == n0, 1),
            1 => {
                for i in n0..n {
                    chk(v.push(T::mk(x ^ i as u64)) == i, 2);
                }
            }
            _ => {
                let h = (n - n0) / 2;
                chk(v.extend_n_items((n0..).map(|i| T::mk(x ^ i as u64)), h) == n0, 3);
                chk(v.extend_for_idx(|b| (b..n).map(|i| T::mk(x ^ i as u64)), n - n0 - h) == n0 + h, 4);
            }
        }
        chk(v.len() == n && all.len() == n0, 5);
        for i in 0..n0 {
            chk(core::ptr::eq(&v[i], a[i]) && core::ptr::eq(&all[i], a[i]) && v[i].map(|x| x.val()) == s.at(i), 6);
            chk(v[i].map(|x| x as *const T) == v.get_raw(i).unwrap(), 7);
        }
        for i in n0..n {
            chk(v[i].map(|y| y.val()) == x ^ i as u64, 8);
        }
        reach(1);
    }
    seq!(s_c06_big_l, f(lin16::<u64>(), one_of(&[15, 16, 40]), 128));
    seq!(s_c06_big_d, f(dbl::<u64>(), one_of(&[4, 28, 60]), 300));
    seq!(s_c06_big_f, f(fixn::<Own>(90), 20, 90));
}
#[cfg(feature = "c12")]
mod c12 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(mut v: CV<T, P>, n: usize, n2: usize) {
        let max = v.maximum_capacity();
        grown(&v, n);
        if flag() {
            let _ = v.len();
        }
        v.clear();
        chk(v.len() == 0 && v.is_empty() && v.maximum_capacity() == max && v.capacity() <= max, 2);
        let i = one_of(&[0, 1, n - 1, n, usize::MAX]);
        chk(v.get(i).is_none() && v.get_cloned(i).is_none() && v.get_raw(i).is_none() && v.get_raw_mut(i).is_none(), 3);
        chk(unsafe { v.iter_ref().next().is_none() && v.iter_mut().next().is_none() } && v.iter().next().is_none(), 4);
        let s = grown(&v, n2);
        is(&v, s, 10);
        // up to the maximum, if it is in reach
        if max <= 200 {
            chk(v.extend((n2..max).map(|i| T::mk(s.at(i)))) == n2, 5);
            is(&v, Seq { x: s.x, n: max }, 20);
            chk(panics(|| { v.push(T::mk(0)); }), 6);
            is(&v, Seq { x: s.x, n: max }, 30);
        }
        if flag() {
            v.clear();
            chk(v.len() == 0 && v.push(T::mk(7)) == 0 && v.maximum_capacity() == max, 7);
        }
        drop(v);
        chk(live() == 0, 8);
        reach(1);
    }
    seq!(s_c12_big_l, f(lin16::<u64>(), one_of(&[16, 17, 65, 128]), 35));
    seq!(s_c12_big_d, f(dbl::<u64>(), one_of(&[28, 66, 130]), 64));
    seq!(s_c12_big_f, f(fixn::<Own>(70), one_of(&[40, 70]), 70));
    seq!(s_c12_big_o, f(dbl::<Own>(), 45, one_of(&[0, 4, 28])));
}
#[cfg(feature = "c13")]
mod c13 {
    use super::*;
    fn f<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: usize) {
        let max = v.maximum_capacity();
        let s = grown(&v, n);
        chk(v.capacity() <= max, 1);
        // a call which does not fit, then what is added with success stays dense
        let k = one_of(&[max - n + 1, max, max + 1, usize::MAX]);
        let way = below(3);
        let p = panics(|| { match way {
            0 => v.extend_n_items((0u64..).map(|q| T::mk(q)), k),
            1 => v.extend_for_idx(|b| { chk(k <= max, 2); (b..b + k).map(|q| T::mk(q as u64)) }, k),
            _ => {
                let mut i = 0;
                while i <= max - n {
                    v.push(T::mk(s.at(n + i)));
                    i += 1;
                }
                0
            }
        }; });
        chk(p, 3);
        if way == 2 {
            is(&v, Seq { x: s.x, n: max }, 10);
        } else {
            let m = v.len();
            chk(m >= n && m <= max, 4);
            for i in 0..n {
                chk(v.get_cloned(i).map(|x| x.val()) == Some(s.at(i)), 5);
            }
        }
        chk(v.capacity() <= max && v.maximum_capacity() == max, 6);
        let l = v.len();
        let o = v.clone_to_vec();
        chk(o.len() == l, 7);
        drop(o);
        drop(v);
        chk(live() == 0, 8);
        reach(way as u32);
    }
    seq!(s_c13_big_l, f(VL::<u64>::with_linear_growth(4, 4), one_of(&[15, 48, 64])));
    seq!(s_c13_big_f, f(fixn::<u64>(100), one_of(&[60, 99, 100])));
    seq!(s_c13_big_o, f(fixn::<Own>(40), 33));
}
