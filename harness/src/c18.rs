//! C18: raw and unchecked accessors return exactly the written elements
use crate::rt::*;
use orx_concurrent_vec::*;

/// every accessor of the vector and of a slice, at any position, agrees with the list; all addresses are those of the
/// elements as seen by the safe accessors
fn raw<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    if flag() {
        let _ = v.len();
    }
    let i = any() as usize;
    let (r, m) = (v.get_raw(i), v.get_raw_mut(i));
    let (a, b) = unsafe { (v.get_ref(i).map(|x| x as *const T), v.get_mut(i).map(|x| x as *const T)) };
    if i < l.n {
        let p = v[i].map(|x| x as *const T);
        chk(r == Some(p) && m == Some(p as *mut T), 1);
        chk(a == Some(p) && b == Some(p), 2);
        chk(unsafe { (*p).val() } == l.d[i], 3);
        reach(1);
    } else {
        chk(r.is_none() && m.is_none() && a.is_none() && b.is_none(), 4);
        reach(2);
    }
    let mut k = 0;
    for x in unsafe { v.iter_ref() } {
        chk(k < l.n && x.val() == l.d[k] && Some(x as *const T) == v.get_raw(k), 5);
        k += 1;
    }
    chk(k == l.n, 6);
    k = 0;
    for x in unsafe { v.iter_mut() } {
        chk(k < l.n && x.val() == l.d[k] && Some(x as *const T) == v.get_raw(k), 7);
        k += 1;
    }
    chk(k == l.n, 8);
}
seq!(s_c18_raw_l, raw::<u64, _>(lin(), 0, q(6, 8)));
seq!(s_c18_raw_d, raw::<u64, _>(dbl(), 0, q(6, 12)));
seq!(s_c18_raw_f, raw::<u64, _>(fix(), 0, 5));
seq!(s_c18_raw_o, raw::<Own, _>(lin(), 0, q(4, 8)));
seq!(s_c18_raw_od, raw::<Own, _>(dbl(), q(3, 0), q(5, 12)));
seq!(s_c18_raw_p, raw::<Pair, _>(dbl(), q(3, 0), q(5, 12)));

fn slice<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    let s = v.slice(a..b);
    let i = any() as usize;
    let (r, m) = (s.get_raw(i), s.get_raw_mut(i));
    let (x, y) = unsafe { (s.get_ref(i).map(|x| x as *const T), s.get_mut(i).map(|x| x as *const T)) };
    if i < b - a {
        let p = v[a + i].map(|x| x as *const T);
        chk(r == Some(p) && m == Some(p as *mut T) && x == Some(p) && y == Some(p), 1);
        reach(1);
    } else {
        chk(r.is_none() && m.is_none() && x.is_none() && y.is_none(), 2);
        reach(2);
    }
    let mut k = a;
    for x in unsafe { s.iter_ref() } {
        chk(k < b && x.val() == l.d[k] && Some(x as *const T) == v.get_raw(k), 3);
        k += 1;
    }
    chk(k == b, 4);
    k = a;
    for x in unsafe { s.iter_mut() } {
        chk(k < b && x.val() == l.d[k] && Some(x as *const T) == v.get_raw(k), 5);
        k += 1;
    }
    chk(k == b, 6);
}
seq!(s_c18_slice_l, slice::<u64, _>(lin(), 0, q(4, 8)));
seq!(s_c18_slice_d, slice::<u64, _>(dbl(), q(5, 0), q(6, 10)));
seq!(s_c18_slice_f, slice::<Own, _>(fix(), 0, q(4, 5)));

/// writes through raw pointers and references are seen by every reader, and the other way round; addresses stay
fn write<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64, more: u64) {
    let mut l = filled(&v, lo, hi);
    let i = below(l.n as u64);
    let x = any();
    let p = v.get_raw(i).unwrap();
    let s = v.as_slice();
    unsafe {
        match below(5) {
            0 => *v.get_raw_mut(i).unwrap() = T::mk(x),
            1 => *v.get_mut(i).unwrap() = T::mk(x),
            2 => *s.get_raw_mut(i).unwrap() = T::mk(x),
            3 => *v.iter_mut().nth(i).unwrap() = T::mk(x),
            _ => v[i].set(T::mk(x)),
        }
        l.d[i] = x;
        chk((*p).val() == x && v.get_ref(i).unwrap().val() == x, 1);
    }
    same(&v, l.s(), 10);
    // growth by any amount
    let m = range(1, more);
    if flag() {
        v.extend((0..m).map(|j| T::mk(x ^ j as u64)));
    } else {
        for j in 0..m {
            v.push(T::mk(x ^ j as u64));
        }
    }
    for j in 0..m {
        l.push(x ^ j as u64);
    }
    chk(v.get_raw(i) == Some(p) && s.get_raw(i) == Some(p) && unsafe { (*p).val() } == x, 2);
    chk(s.get_raw(l.n - m).is_none() && v.get_raw(l.n - m).is_some(), 3);
    v[i].replace(T::mk(1));
    chk(v.get_raw(i) == Some(p) && unsafe { (*p).val() } == 1, 4);
    drop(v);
    chk(live() == 0, 5);
    reach(1);
}
seq!(s_c18_write_l, write::<u64, _>(lin(), 1, q(4, 5), 3));
seq!(s_c18_write_lo, write::<Own, _>(lin(), 1, q(3, 5), 3));
seq!(s_c18_write_d, write::<u64, _>(dbl(), q(3, 1), q(5, 6), q(3, 5)));
seq!(s_c18_write_f, write::<Own, _>(fix(), 1, 3, 2));

// ---- an element is found while other threads access it (the address only, nothing is read through it)
fn there<T, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, i: usize) -> bool {
    v.get_raw(i).is_some() && v.get_raw_mut(i).is_some()
}
fn count<T, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>) -> usize {
    unsafe { v.iter_mut().map(|x| x as *mut T).count() }
}
macro_rules! acc {
    ($($n:literal $e:expr;)*) => {
        $( conc2! { $n, VL<u64>, l1(2); |v| { chk(there(v, 0) && there(v, 1), 1); chk(there(v, 0) && v.get_raw(2).is_none(), 2) }, $e; |v| chk(there(&v, 0), 3) } )*
    };
}
acc! {
    "c18_map" |v| v[0].map(|x| chk(*x == 100, 5));
    "c18_upd" |v| v[0].update(|x| *x += 1);
    "c18_set" |v| v[0].set(5);
    "c18_rep" |v| { v[0].replace(5); };
    "c18_swap" |v| { v.swap(0, 1); };
    "c18_cl" |v| { v[0].cloned(); v.get_cloned(1); };
    "c18_eq" |v| { let _ = v[0] == v[1]; };
    "c18_fill" |v| v.fill(4);
}
conc2! { "c18_its", VL<u64>, l1(2); |v| chk(count(v) == 2, 1), |v| v[1].update(|x| *x += 1); |v| chk(v[1] == 102, 2) }
conc2! { "c18_itr", VL<u64>, l1(2); |v| { let mut s = 0; for x in unsafe { v.iter_ref() } { s += *x } chk(s == 201, 1) }, |v| { v[1].map(|x| *x); v.get_cloned(0); }; |v| chk(v.len() == 2, 2) }
conc2! { "c18_ref", VL<Own>, o1(2); |v| { let x = unsafe { v.get_ref(0) }; chk(x.map(|x| x.val()) == Some(100), 1) }, |v| { chk(v[0].cloned().val() == 100, 2); chk(v.get_cloned(0).is_some(), 3) }; |v| { drop(v); chk(live() == 0, 4) } }
conc2! { "c18_slr", VL<u64>, l1(3); |v| { let s = v.slice(1..3); chk(s.get_raw(0).is_some() && s.get_raw_mut(1).is_some() && s.get_raw(2).is_none(), 1); chk(unsafe { s.iter_mut() }.map(|x| x as *mut u64).count() == 2, 2) }, |v| { v.swap(1, 2); }; |v| chk(v[1] == 102, 2) }
// growth: what is found is written (reading through it is not a race), and stays where it is
macro_rules! gro {
    ($($n:literal $ty:ty, $mk:expr, $k:expr;)*) => {
        $( conc2! { $n, $ty, $mk;
            |v| {
                let p = v.get_raw($k);
                if let Some(p) = p { chk(unsafe { (*p).val() } == 100 + $k, 1); chk(v.get_raw($k) == Some(p), 2) }
                out(1, p.is_some() as u64)
            },
            |v| { v.push(Elem::mk(100 + $k)); };
            |v| { reach(got(1) as u32); chk(there(&v, $k) && v.get_raw($k + 1).is_none(), 3) } } )*
    };
}
gro! {
    "c18_gro_l1" VL<u64>, l1(1), 1;
    "c18_gro_l2" VL<Own>, o1(2), 2;
    "c18_gro_d3" VD<Own>, pre(dbl(), 3), 3;
    "c18_gro_d4" VD<u64>, d1(4), 4;
    "c18_gro_f" VF<Pair>, pre(fix(), 1), 1;
}
conc2! { "c18_gref", VL<Own>, o1(2); |v| { let x = unsafe { v.get_ref(2) }.map(|x| x.val()).unwrap_or(7); chk(x == 7 || x == 102, 1); out(1, x) }, |v| { v.push(own(102)); }; |v| { reach(got(1) as u32); drop(v); chk(live() == 0, 2) } }
conc2! { "c18_gmut", VL<u64>, l1(2); |v| { let p = unsafe { v.get_mut(2) }; out(1, p.is_some() as u64); if let Some(p) = p { *p += 1 } }, |v| { v.push(102); }; |v| { reach(got(1) as u32); chk(v[2] == 102 + got(1), 2) } }
conc2! { "c18_git", VL<u64>, l1(2); |v| { let mut n = 0; for x in unsafe { v.iter_ref() } { chk(*x >= 100 && *x < 104, 1); n += 1 } out(1, n); chk(n >= 2, 3) }, |v| { v.extend([102, 103]); }; |v| { reach(got(1) as u32); chk(count(&v) == 4, 2) } }
conc2! { "c18_two", VL<u64>, l1(1); |v| { let i = v.push(5); let p = v.get_raw(i); chk(p.map(|p| unsafe { *p }) == Some(5), 1); out(1, p.unwrap() as u64); out(2, i as u64) }, |v| { v.push(6); };
    |v| { reach(g(2) as u32); chk(v.get_raw(g(2)).unwrap() as u64 == got(1), 2); chk(v[g(2)].map(|x| x as *const u64 as u64) == got(1), 3) } }

// ---- while growth calls of the same thread are in flight (user code inside growth calls)
seq!(s_c18_fly_l, crate::inflight::inflight::<u64, _>(lin(), 0, q(2, 4), crate::inflight::RAW));
seq!(s_c18_fly_lo, crate::inflight::inflight::<Own, _>(lin(), q(1, 0), q(2, 3), crate::inflight::RAW));
seq!(s_c18_fly_d, crate::inflight::inflight::<u64, _>(dbl(), q(3, 1), q(4, 5), crate::inflight::RAW));
seq!(s_c18_fly_f, crate::inflight::inflight::<u64, _>(VF::with_fixed_capacity(10), 0, q(1, 3), crate::inflight::RAW));

// ---- large and over-aligned elements
seq!(s_c18_raw_b, raw::<Big, _>(lin(), q(2, 0), q(3, 8)));
seq!(s_c18_raw_t, raw::<Tri, _>(dbl(), q(3, 0), q(5, 9)));
seq!(s_c18_slice_b, slice::<Big, _>(lin(), q(2, 0), q(3, 6)));

// ---- vectors in which a position holds no value: it is skipped, and all others are where they are
fn holes<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, n: usize) {
    let h = below(n as u64);
    for i in 0..n {
        if i == h {
            chk(panics(|| { v.push_for_idx(|_| panic!("user")); }), 1);
        } else {
            chk(v.push(own(i as u64)) == i, 2);
        }
    }
    // the hole is only in reach of slices and iterators of a vector which was taken over with it
    let again = flag();
    let v = if again { CV::<Own, P>::from(v.into_inner()) } else { v };
    let i = any() as usize;
    let there = i < n && i != h;
    chk(v.get_raw(i).is_some() == there && v.get_raw_mut(i).is_some() == there, 3);
    unsafe {
        chk(v.get_ref(i).map(|x| x.val()) == if there { Some(i as u64) } else { None }, 4);
        chk(v.get_mut(i).map(|x| x.val()) == if there { Some(i as u64) } else { None }, 5);
        let mut k = 0;
        for x in v.iter_ref() {
            k += (k == h) as usize;
            chk(k < n && x.val() == k as u64, 6);
            k += 1;
        }
        chk(k + (k == h) as usize == n, 7);
        let mut k = 0;
        for x in v.iter_mut() {
            k += (k == h) as usize;
            chk(k < n && x.val() == k as u64, 8);
            k += 1;
        }
        chk(k + (k == h) as usize == n, 9);
        let m = v.len();
        chk(again || m == h, 10);
        let b = range(0, m as u64);
        let a = range(0, b as u64);
        let s = v.slice(a..b);
        let inside = i < b - a && a + i != h;
        chk(s.get_raw(i).is_some() == inside && s.get_raw_mut(i).is_some() == inside, 11);
        chk(s.get_ref(i).map(|x| x.val()) == if inside { Some((a + i) as u64) } else { None }, 12);
        let mut k = a;
        for x in s.iter_ref() {
            k += (k == h) as usize;
            chk(k < b && x.val() == k as u64, 13);
            k += 1;
        }
        chk(k + (k == h) as usize >= b, 14);
        let mut k = a;
        for x in s.iter_mut() {
            k += (k == h) as usize;
            chk(k < b && x.val() == k as u64, 15);
            k += 1;
        }
        chk(k + (k == h) as usize >= b, 16);
    }
    reach(again as u32);
    drop(v);
    chk(live() == 0, 17);
}
seq!(s_c18_holes_l, holes(VL::with_linear_growth(1, 4), q(3, 5) as usize));
seq!(s_c18_holes_d, holes(dbl(), q(3, 5) as usize));
seq!(s_c18_holes_f, holes(VF::with_fixed_capacity(6), q(3, 5) as usize));
