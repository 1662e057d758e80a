//! C09: bulk mutation touches exactly its target positions
use crate::rt::*;
use orx_concurrent_vec::*;

fn bulk<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let mut l = filled(&v, lo, hi);
    let n = l.n;
    let b = range(0, n as u64);
    let a = range(0, b as u64);
    let whole = a == 0 && b == n;
    let x = any();
    match below(7) {
        0 => {
            if whole && flag() {
                v.fill(T::mk(x));
            } else {
                v.slice(a..b).fill(T::mk(x));
            }
            for i in a..b {
                l.d[i] = x;
            }
            reach(1);
        }
        1 => {
            let mut k = 0;
            let mut f = |i: usize| {
                chk(i == k, 1);
                k += 1;
                T::mk(x.wrapping_add(i as u64))
            };
            if whole && flag() {
                v.fill_with(&mut f);
            } else {
                v.slice(a..b).fill_with(&mut f);
            }
            chk(k == b - a, 2);
            for i in a..b {
                l.d[i] = x.wrapping_add((i - a) as u64);
            }
            reach(2);
        }
        2 => {
            let (i, j) = (any() as usize, any() as usize);
            let r = if whole && flag() { v.swap(i, j) } else { v.slice(a..b).swap(i, j) };
            chk(r == (i < b - a && j < b - a), 3);
            if r {
                let t = l.d[a + i];
                l.d[a + i] = l.d[a + j];
                l.d[a + j] = t;
                reach(3);
            }
        }
        k => {
            let s = v.slice(a..b);
            let i = any() as usize;
            let e = match flag() {
                true => v.get(i),
                false => s.get(i).filter(|_| i < b - a),
            };
            if let Some(e) = e {
                // which position is it?
                let mut p = n;
                for j in 0..n {
                    if core::ptr::eq(e, &v[j]) {
                        p = j;
                    }
                }
                chk(p == i || p == a + i, 4);
                match k {
                    3 => {
                        e.set(T::mk(x));
                        l.d[p] = x;
                    }
                    4 => {
                        chk(e.replace(T::mk(x)).val() == l.d[p], 5);
                        l.d[p] = x;
                    }
                    5 => {
                        let mut c = 0;
                        e.update(|y| {
                            *y = T::mk(y.val() ^ x);
                            c += 1;
                        });
                        chk(c == 1, 6);
                        l.d[p] ^= x;
                    }
                    _ => {
                        for e in s.iter() {
                            e.update(|y| *y = T::mk(y.val().wrapping_mul(3)));
                        }
                        for j in a..b {
                            l.d[j] = l.d[j].wrapping_mul(3);
                        }
                    }
                }
                reach(k as u32 + 1);
            }
        }
    }
    same(&v, l.s(), 10);
    // growth goes on after the mutation
    v.push(T::mk(5));
    l.push(5);
    same(&v, l.s(), 30);
    drop(v);
    chk(live() == 0, 7);
}
seq!(s_c09_l, bulk(lin::<u64>(), 0, q(4, 7)));
seq!(s_c09_d, bulk(dbl::<u64>(), q(4, 0), q(5, 8)));
seq!(s_c09_f, bulk(VF::<u64>::with_fixed_capacity(8), 0, q(3, 7)));
seq!(s_c09_o, bulk(lin::<Own>(), 0, q(3, 6)));
seq!(s_c09_p, bulk(lin::<Pair>(), 3, q(3, 6)));

// ---- concurrent: disjoint parts do not disturb each other, growth stays out of fill
conc2! { "c09_fill_fill", VL<u64>, l1(4); |v| v.slice(..2).fill(7), |v| v.slice(2..).fill_with(|i| 20 + i as u64);
    |v| chk(v[0] == 7 && v[1] == 7 && v[2] == 20 && v[3] == 21 && v.len() == 4, 1) }
conc2! { "c09_fill_push", VL<u64>, l1(2); |v| v.slice(0..2).fill(7), |v| { v.push(11); };
    |v| chk(v[0] == 7 && v[1] == 7 && v[2] == 11 && v.len() == 3, 1) }
conc2! { "c09_fill_all", VL<u64>, l1(1); |v| v.fill(7), |v| { v.push(11); };
    |v| { let x = v[1].cloned(); chk(v[0] == 7 && (x == 11 || x == 7) && v.len() == 2, 1); reach(x as u32) } }
conc2! { "c09_same", VL<Own>, o1(2); |v| v.fill(own(7)), |v| v.fill_with(|i| own(20 + i as u64));
    |v| { let (a, b) = (v[0].cloned().val(), v[1].cloned().val()); chk((a == 7 || a == 20) && (b == 7 || b == 21), 1); reach((100 * a + b) as u32); drop(v); chk(live() == 0, 2) } }
conc2! { "c09_swap_fill", VL<u64>, l1(4); |v| { chk(v.slice(..2).swap(0, 1), 1) }, |v| v.slice(2..).fill(5);
    |v| chk(v[0] == 101 && v[1] == 100 && v[2] == 5 && v[3] == 5, 1) }

// ---- large and over-aligned elements
seq!(s_c09_b, bulk(lin::<Big>(), 2, q(3, 6)));
seq!(s_c09_t, bulk(dbl::<Tri>(), 2, q(3, 6)));
seq!(s_c09_w, bulk(lin::<Wide>(), 2, q(2, 4)));
