//! C04: element operations are atomic: no lost or mixed updates
use crate::rt::*;
use orx_concurrent_vec::*;

fn one<T: Elem>(x: u64) -> VL<T> {
    let v = lin();
    v.push(T::mk(x));
    v.push(T::mk(50));
    let _ = v.len();
    v
}
fn end<T: Elem>(v: Box<VL<T>>, f: impl FnOnce(u64) -> bool, id: u32) {
    let x = v[0].cloned().val();
    chk(f(x), id);
    chk(v[1].cloned().val() == 50 && v.len() == 2, id + 1);
    reach(x as u32);
    drop(v);
    chk(live() == 0, id + 2);
}
fn upd<T: Elem>(e: &CE<T>, f: impl Fn(u64) -> u64) {
    e.update(|x| *x = T::mk(f(x.val())));
}
// ---- two writers: the result is that of one of the two orders
macro_rules! ww {
    ($n:literal, $t:ty, $a:expr, $b:expr, $x:expr) => {
        conc2! { $n, VL<$t>, one::<$t>(3);
            |v: &VL<$t>| { let g: fn(&CE<$t>) = $a; g(&v[0]) },
            |v: &VL<$t>| { let g: fn(&CE<$t>) = $b; g(&v[0]) };
            |v| end(v, |x| { let ok: &[u64] = &$x; ok.contains(&x) }, 10) }
    };
}
ww! { "c04_uu", u64, |e| e.update(|x| *x += 1), |e| e.update(|x| *x += 10), [14] }
ww! { "c04_uu2", Pair, |e| upd(e, |x| x * 2 + 1), |e| upd(e, |x| x * 3), [21, 19] }
ww! { "c04_uu3", Own, |e| e.update(|x| *x.0 += 1), |e| e.update(|x| *x.0 *= 2), [8, 7] }
ww! { "c04_us", Pair, |e| upd(e, |x| x + 1), |e| e.set(pair(20)), [20, 21] }
ww! { "c04_us2", Own, |e| upd(e, |x| x + 1), |e| e.set(own(20)), [20, 21] }
ww! { "c04_ss", Pair, |e| e.set(pair(11)), |e| e.set(pair(20)), [11, 20] }
ww! { "c04_ss2", Own, |e| e.set(own(11)), |e| e.set(own(20)), [11, 20] }
ww! { "c04_u4", u64, |e| { e.update(|x| *x += 1); e.update(|x| *x += 1) }, |e| { e.update(|x| *x += 10); e.update(|x| *x += 10) }, [25] }
conc2! { "c04_u3t", VL<u64>, one::<u64>(3); |v| v[0].update(|x| *x += 1), |v| v[0].update(|x| *x += 10), |v| v[0].update(|x| *x += 100);
    |v| end(v, |x| x == 114, 10) }
conc2! { "c04_s3t", VL<Own>, one::<Own>(3); |v| v[0].set(own(1)), |v| v[0].update(|x| *x.0 += 10), |v| { out(1, v[0].replace(own(5)).val()) };
    |v| { let r = got(1); end(v, |x| match r { 3 => in_(x, &[1, 11, 15]) , 1 => in_(x, &[5, 15]), 11 => x == 5, 13 => in_(x, &[1, 5]), _ => false }, 10) } }
fn in_(x: u64, s: &[u64]) -> bool {
    s.iter().any(|y| *y == x)
}

// ---- replace returns exactly the value it displaced
conc2! { "c04_rr", VL<Own>, one::<Own>(3); |v| out(1, v[0].replace(own(11)).val()), |v| out(2, v[0].replace(own(22)).val());
    |v| { let r = (got(1), got(2)); end(v, |x| (r.0, r.1, x) == (3, 11, 22) || (r.0, r.1, x) == (22, 3, 11), 10) } }
conc2! { "c04_rrp", VL<Pair>, one::<Pair>(3); |v| out(1, v[0].replace(pair(11)).val()), |v| out(2, v[0].replace(pair(22)).val());
    |v| { let r = (got(1), got(2)); end(v, |x| (r.0, r.1, x) == (3, 11, 22) || (r.0, r.1, x) == (22, 3, 11), 10) } }
conc2! { "c04_rrr", VL<u64>, one::<u64>(3); |v| out(1, v[0].replace(11)), |v| out(2, v[0].replace(22)), |v| out(3, v[0].replace(33));
    |v| { let r = (got(1), got(2), got(3)); end(v, |x| {
        // the displaced values and the last one are exactly the four values, each once
        let mut s = [r.0, r.1, r.2, x];
        for i in 0..4 { for j in i + 1..4 { if s[j] < s[i] { s.swap(i, j) } } }
        s == [3, 11, 22, 33] && r.0 != 11 && r.1 != 22 && r.2 != 33
    }, 10) } }
conc2! { "c04_ru", VL<u64>, one::<u64>(3); |v| out(1, v[0].replace(11)), |v| v[0].update(|x| *x += 100);
    |v| { let r = got(1); end(v, |x| (r, x) == (3, 111) || (r, x) == (103, 11), 10) } }
conc2! { "c04_rs", VL<Own>, one::<Own>(3); |v| out(1, v[0].replace(own(11)).val()), |v| v[0].set(own(22));
    |v| { let r = got(1); end(v, |x| (r, x) == (3, 22) || (r, x) == (22, 11), 10) } }
conc2! { "c04_r2", VL<u64>, one::<u64>(3); |v| { out(1, v[0].replace(11)); out(2, v[0].replace(12)) }, |v| out(3, v[0].replace(22));
    |v| { let r = (got(1), got(2), got(3)); end(v, |x| in4((r.0, r.1, r.2, x), &[(3, 11, 12, 22), (22, 11, 3, 12), (3, 22, 11, 12)]), 10) } }
fn in4(x: (u64, u64, u64, u64), s: &[(u64, u64, u64, u64)]) -> bool {
    s.iter().any(|y| *y == x)
}
// a message handed over through an element: what was read before is gone afterwards
conc2! { "c04_take", VL<Own>, one::<Own>(3); |v| { let x = v[0].replace(own(0)); out(1, x.val()) }, |v| { let x = v[0].replace(own(0)); out(2, x.val()) };
    |v| { let r = (got(1), got(2)); end(v, |x| x == 0 && (r == (3, 0) || r == (0, 3)), 10) } }

// ---- readers see a value some operation left there, in the order of the writes
macro_rules! rd {
    ($n:literal, $t:ty, $w:expr, $r:expr, $x:expr) => {
        conc2! { $n, VL<$t>, one::<$t>(3);
            |v: &VL<$t>| { let g: fn(&CE<$t>) = $w; g(&v[0]) },
            |v: &VL<$t>| { let g: fn(&CE<$t>) = $r; g(&v[0]) };
            |v| end(v, |x| x == $x, 10) }
    };
}
rd! { "c04_rd_cl", Pair, |e| e.set(pair(4)), |e| { let x = e.cloned().val(); let y = e.copied().val(); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
rd! { "c04_rd_map", Pair, |e| e.update(|x| { x.0 += 1; x.1 += 1 }), |e| { let x = e.map(|x| x.val()); let y = e.map(|x| x.val()); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
rd! { "c04_rd_own", Own, |e| { e.replace(own(4)); }, |e| { let x = e.cloned().val(); let y = e.map(|x| x.val()); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
rd! { "c04_rd_two", Pair, |e| { e.set(pair(4)); e.set(pair(5)) }, |e| { let x = e.cloned().val(); let y = e.cloned().val(); chk(in_(x, &[3, 4, 5]) && x <= y && y <= 5, 1); reach((10 * x + y) as u32) }, 5 }
rd! { "c04_rd_eq", Own, |e| e.set(own(4)), |e| { let a = *e == own(4); let b = *e == own(3); chk(!(a && b), 1); reach(1 + a as u32 + 2 * b as u32) }, 4 }
rd! { "c04_rd_eq2", Pair, |e| e.update(|x| *x = pair(4)), |e| { let a = *e == pair(4); let b = *e == pair(4); chk(!a || b, 1); reach(1 + a as u32 + 2 * b as u32) }, 4 }
rd! { "c04_rd_gc", u64, |e| { e.set(4); e.set(5) }, |e| { let x = e.copied(); let y = e.copied(); chk(in_(x, &[3, 4, 5]) && x <= y && y <= 5, 1); reach((10 * x + y) as u32) }, 5 }
rd! { "c04_rd_u8", u8, |e| { e.update(|x| *x += 1); e.update(|x| *x += 1) }, |e| { let x = e.copied(); let y = e.cloned(); chk(in_(x as u64, &[3, 4, 5]) && x <= y && y <= 5, 1); reach((10 * x + y) as u32) }, 5 }
// the ways of the vector and of a slice to copy out an element, in the order of the writes
conc2! { "c04_rd_vec", VL<u64>, one::<u64>(3); |v| { v[0].set(4); v[0].update(|x| *x += 1) },
    |v| { let x = v.get_copied(0).unwrap(); let y = v.slice(..).get_copied(0).unwrap(); let z = v.get_cloned(0).unwrap(); chk(in_(x, &[3, 4, 5]) && x <= y && y <= z && z <= 5, 1); reach((10 * x + y) as u32) };
    |v| end(v, |x| x == 5, 10) }
conc2! { "c04_rd_vec8", VL<u8>, one::<u8>(3); |v| { v[0].set(4); v.slice(..1).fill(5) },
    |v| { let x = v.slice(0..).get_cloned(0).unwrap(); let y = v.iter_cloned().next().unwrap(); let z = v.get_copied(0).unwrap(); chk(in_(x as u64, &[3, 4, 5]) && x <= y && y <= z && z <= 5, 1); reach((10 * x + y) as u32) };
    |v| end(v, |x| x == 5, 10) }
ww! { "c04_uu8", u8, |e| e.update(|x| *x += 1), |e| e.update(|x| *x += 10), [14] }
ww! { "c04_us8", u8, |e| e.update(|x| *x += 1), |e| e.set(20), [20, 21] }
ww! { "c04_us64", u64, |e| e.update(|x| *x += 1), |e| e.set(20), [20, 21] }
ww! { "c04_ur64", u64, |e| e.update(|x| *x += 1), |e| { e.replace(20); }, [20, 21] }
ww! { "c04_ur8", u8, |e| e.update(|x| *x += 1), |e| { e.replace(20); }, [20, 21] }
// writes of one thread become visible in order, across two elements
conc2! { "c04_order", VL<u64>, { let v = lin(); v.push(1); v.push(2); v }; |v| { v[0].set(11); v[1].set(12) },
    |v| { let y = v[1].cloned(); let x = v[0].cloned(); chk(y != 12 || x == 11, 1); reach((100 * x + y) as u32) };
    |v| { chk(v[0] == 11 && v[1] == 12, 2) } }
// other ways to reach the same element
conc2! { "c04_ways", VL<u64>, one::<u64>(3); |v| { v.slice(0..1)[0].update(|x| *x += 1); v.get(0).unwrap().update(|x| *x += 1) },
    |v| { for e in v.iter() { e.update(|x| *x += 10) } };
    |v| { chk(v[0] == 15 && v[1] == 60, 2) } }
// bulk mutation against an update
conc2! { "c04_fill", VL<Own>, one::<Own>(3); |v| v.fill(own(7)), |v| { v[0].update(|x| *x.0 += 10); v[1].update(|x| *x.0 += 10) };
    |v| { let (a, b) = (v[0].cloned().val(), v[1].cloned().val()); chk(in_(a, &[7, 17]) && in_(b, &[7, 17]), 2); reach((100 * a + b) as u32); drop(v); chk(live() == 0, 3) } }

// ---- sequential: values of any kind
fn ops<T: Elem>(k: usize) {
    let v = lin::<T>();
    let l = filled(&v, 1, 3);
    let mut d = l.d;
    let i = below(l.n as u64);
    for _ in 0..k {
        let x = any();
        match below(6) {
            0 => {
                chk(v[i].replace(T::mk(x)).val() == d[i], 1);
                d[i] = x
            }
            1 => {
                v[i].set(T::mk(x));
                d[i] = x
            }
            2 => {
                v[i].update(|y| *y = T::mk(y.val() ^ x));
                d[i] ^= x
            }
            3 => chk((v[i] == T::mk(x)) == (d[i] == x), 2),
            4 => chk(v[i].map(|y| y.val() ^ x) == d[i] ^ x, 3),
            _ => chk(v[i].cloned().val() == d[i], 4),
        }
    }
    same(&v, &d[..l.n], 10);
    drop(v);
    chk(live() == 0, 5);
    reach(1);
}
seq!(s_c04_ops, ops::<u64>(q(3, 4) as usize));
seq!(s_c04_ops_o, ops::<Own>(q(3, 4) as usize));
seq!(s_c04_ops_p, ops::<Pair>(q(2, 3) as usize));
seq!(s_c04_ops_8, ops8(q(3, 4) as usize));
fn ops8(k: usize) {
    let v = lin::<u8>();
    let mut d = any() as u8;
    v.push(d);
    for _ in 0..k {
        let x = any() as u8;
        match below(5) {
            0 => {
                chk(v[0].replace(x) == d, 1);
                d = x
            }
            1 => {
                v[0].set(x);
                d = x
            }
            2 => {
                v[0].update(|y| *y ^= x);
                d ^= x
            }
            3 => chk((v[0] == x) == (d == x), 2),
            _ => chk(v[0].copied() == d && v.get_copied(0) == Some(d) && v.slice(..).get_copied(0) == Some(d), 4),
        }
    }
    chk(v[0].cloned() == d && v.len() == 1, 5);
    reach(1);
}

// ---- large and over-aligned elements
ww! { "c04_big_us", Big, |e| upd(e, |x| x + 1), |e| e.set(Big::mk(20)), [20, 21] }
ww! { "c04_big_uu", Big, |e| upd(e, |x| x * 2 + 1), |e| upd(e, |x| x * 3), [21, 19] }
ww! { "c04_big_ur", Big, |e| upd(e, |x| x + 1), |e| { e.replace(Big::mk(20)); }, [20, 21] }
ww! { "c04_tri_us", Tri, |e| upd(e, |x| x + 1), |e| e.set(Tri::mk(20)), [20, 21] }
conc2! { "c04_big_rr", VL<Big>, one::<Big>(3); |v| out(1, v[0].replace(Big::mk(11)).val()), |v| out(2, v[0].replace(Big::mk(22)).val());
    |v| { let r = (got(1), got(2)); end(v, |x| (r.0, r.1, x) == (3, 11, 22) || (r.0, r.1, x) == (22, 3, 11), 10) } }
conc2! { "c04_u8_rr", VL<u8>, one::<u8>(3); |v| out(1, v[0].replace(11) as u64), |v| out(2, v[0].replace(22) as u64);
    |v| { let r = (got(1), got(2)); end(v, |x| (r.0, r.1, x) == (3, 11, 22) || (r.0, r.1, x) == (22, 3, 11), 10) } }
rd! { "c04_rd_big", Big, |e| e.set(Big::mk(4)), |e| { let x = e.cloned().val(); let y = e.copied().val(); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
rd! { "c04_rd_tri", Tri, |e| upd(e, |x| x + 1), |e| { let x = e.map(|x| x.val()); let y = e.copied().val(); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
seq!(s_c04_ops_b, ops::<Big>(q(2, 3) as usize));
seq!(s_c04_ops_t, ops::<Tri>(q(2, 3) as usize));

// large elements which own memory
ww! { "c04_wide_us", Wide, |e| upd(e, |x| x + 1), |e| e.set(Wide::mk(20)), [20, 21] }
conc2! { "c04_wide_rs", VL<Wide>, one::<Wide>(3); |v| out(1, v[0].replace(Wide::mk(11)).val()), |v| v[0].set(Wide::mk(22));
    |v| { let r = got(1); end(v, |x| (r, x) == (3, 22) || (r, x) == (22, 11), 10) } }
rd! { "c04_rd_wide", Wide, |e| e.set(Wide::mk(4)), |e| { let x = e.cloned().val(); let y = e.map(|x| x.val()); chk(in_(x, &[3, 4]) && in_(y, &[3, 4]) && x <= y, 1); reach((10 * x + y) as u32) }, 4 }
seq!(s_c04_ops_w, ops::<Wide>(q(2, 3) as usize));
