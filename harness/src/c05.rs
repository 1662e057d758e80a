//! C05: swap exchanges two elements atomically and never deadlocks
use crate::rt::*;
use orx_concurrent_vec::*;

// ---- sequential: any pair of indices
fn v_swap<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let (i, j) = (any() as usize, any() as usize);
    let ok = v.swap(i, j);
    chk(ok == (i < l.n && j < l.n), 1);
    let mut m = l;
    if ok {
        m.d.swap(i, j);
        reach(if i == j { 2 } else { 1 });
    } else {
        reach(3);
    }
    same(&v, m.s(), 10);
    // elements are not left locked
    for k in 0..l.n {
        v[k].set(T::mk(k as u64));
        chk(v[k].cloned().val() == k as u64, 30);
    }
}
seq!(s_c05_v_l, v_swap(lin::<u64>(), 0, 4));
seq!(s_c05_v_d, v_swap(dbl::<u64>(), 3, 5));
seq!(s_c05_v_f, v_swap(fix::<u64>(), 0, 4));
seq!(s_c05_v_o, v_swap(lin::<Own>(), 1, 3));

fn s_swap<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    let s = v.slice(a..b);
    let (i, j) = (any() as usize, any() as usize);
    let ok = s.swap(i, j);
    chk(ok == (i < b - a && j < b - a), 1);
    let mut m = l;
    if ok {
        m.d.swap(a + i, a + j);
        reach(if i == j { 2 } else { 1 });
    } else {
        reach(3);
    }
    same(&v, m.s(), 10);
}
seq!(s_c05_s_l, s_swap(lin::<u64>(), 2, 4));
seq!(s_c05_s_d, s_swap(dbl::<u64>(), 4, 5));

/// swapping twice restores the elements; two swaps form a rotation
seq!(s_c05_twice, {
    let v = lin::<u64>();
    let l = filled(&v, 3, 3);
    let (i, j) = (below(3), below(3));
    v.swap(i, j);
    v.swap(j, i);
    same(&v, l.s(), 1);
    v.swap(0, 1);
    v.swap(1, 2);
    same(&v, &[l.d[1], l.d[2], l.d[0]], 10);
});

// ---- concurrent
fn v2() -> VL<u64> {
    let v = lin();
    v.push(7);
    v.push(8);
    let _ = v.len();
    v
}
fn v3() -> VL<u64> {
    let v = v2();
    v.push(9);
    let _ = v.len();
    v
}
fn perm2(v: &VL<u64>) {
    chk(v.len() == 2, 90);
    chk(v[0].copied() ^ v[1].copied() == 7 ^ 8 && (v[0].copied() == 7 || v[0].copied() == 8), 91);
}
conc! { p_c05_opposite_setup p_c05_opposite_final, VL<u64>, v2();
    p_c05_opposite_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_opposite_t2 => |v| { chk(v.swap(1, 0), 2) };
    |v| { chk(v.len() == 2 && v[0].copied() == 7 && v[1].copied() == 8, 3) } }
conc! { p_c05_same_setup p_c05_same_final, VL<u64>, v2();
    p_c05_same_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_same_t2 => |v| { chk(v.swap(0, 1), 2) };
    |v| { chk(v.len() == 2 && v[0].copied() == 7 && v[1].copied() == 8, 3) } }
// across fragments, overlapping in one element: both orders of the two swaps are possible, nothing else
conc! { p_c05_chain_setup p_c05_chain_final, VL<u64>, v3();
    p_c05_chain_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_chain_t2 => |v| { chk(v.swap(2, 1), 2) };
    |v| {
        let x = (v[0].copied(), v[1].copied(), v[2].copied());
        chk(x == (8, 9, 7) || x == (9, 7, 8), 3);
        reach(if x.0 == 8 { 1 } else { 2 });
    } }
conc! { p_c05_slice_setup p_c05_slice_final, VL<u64>, v3();
    p_c05_slice_t1 => |v| { chk(v.slice(1..3).swap(1, 0), 1) },
    p_c05_slice_t2 => |v| { chk(v.swap(0, 2), 2) };
    |v| {
        let x = (v[0].copied(), v[1].copied(), v[2].copied());
        // swap(1,2) then swap(0,2), or the other way around
        chk(x == (8, 9, 7) || x == (9, 7, 8), 3);
        reach(if x.0 == 8 { 1 } else { 2 });
    } }
// with mutations: an update, a replace and a set of one of the swapped elements
conc! { p_c05_update_setup p_c05_update_final, VL<u64>, v2();
    p_c05_update_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_update_t2 => |v| { v[0].update(|x| *x += 100) };
    |v| {
        let x = (v[0].copied(), v[1].copied());
        chk(x == (8, 107) || x == (108, 7), 3);
        reach(if x.0 == 8 { 1 } else { 2 });
    } }
conc! { p_c05_replace_setup p_c05_replace_final, VL<u64>, v2();
    p_c05_replace_t1 => |v| { chk(v.swap(1, 0), 1) },
    p_c05_replace_t2 => |v| { out(1, v[1].replace(55)) };
    |v| {
        let x = (v[0].copied(), v[1].copied(), got(1));
        chk(x == (55, 7, 8) || x == (8, 55, 7), 3);
        reach(if x.0 == 8 { 1 } else { 2 });
    } }
// readers see one of the values of a position before and after
conc! { p_c05_read_setup p_c05_read_final, VL<u64>, v2();
    p_c05_read_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_read_t2 => |v| {
        let a = v[0].copied();
        chk(a == 7 || a == 8, 2);
        let b = v.get_cloned(0);
        chk(if a == 8 { b == Some(8) } else { b == Some(7) || b == Some(8) }, 4);
    };
    |v| { chk(v[0].copied() == 8 && v[1].copied() == 7, 3) } }
// self swaps do not disturb others
conc! { p_c05_self_setup p_c05_self_final, VL<u64>, v2();
    p_c05_self_t1 => |v| { chk(v.swap(1, 1), 1) },
    p_c05_self_t2 => |v| { v[1].update(|x| *x += 1); chk(v.swap(1, 0), 2) };
    |v| { chk(v[0].copied() == 9 && v[1].copied() == 7, 3) } }
// values which own memory are neither lost nor duplicated
conc! { p_c05_own_setup p_c05_own_final, VL<Own>, { let v = lin(); v.push(own(7)); v.push(own(8)); let _ = v.len(); v };
    p_c05_own_t1 => |c| { chk(c.swap(0, 1), 1) },
    p_c05_own_t2 => |c| { c[0].set(own(9)) };
    |c| {
        let x = (*c[0].cloned().0, *c[1].cloned().0);
        chk(x == (9, 7) || x == (8, 9), 3);
        drop(c);
        chk(live() == 0, 4);
    } }
// three threads in a ring: the classical deadlock of unordered locking
conc! { p_c05_ring_setup p_c05_ring_final, VL<u64>, v3();
    p_c05_ring_t1 => |v| { chk(v.swap(0, 1), 1) },
    p_c05_ring_t2 => |v| { chk(v.swap(1, 2), 2) },
    p_c05_ring_t3 => |v| { chk(v.swap(2, 0), 3) };
    |v| {
        let x = (v[0].copied(), v[1].copied(), v[2].copied());
        chk(x.0 + x.1 + x.2 == 24 && x.0 != x.1 && x.1 != x.2 && x.0 != x.2, 4);
    } }
// swap is atomic with respect to comparisons of the two elements: 7, 8 never compare equal
conc! { p_c05_eq_setup p_c05_eq_final, VL<u64>, v2();
    p_c05_eq_t1 => |v| { chk(v.swap(1, 0), 1) },
    p_c05_eq_t2 => |v| { chk(v[0] != v[1], 2) };
    |v| { perm2(&v) } }

fn is<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, x: &[u64]) -> bool {
    v.len() == x.len() && v.iter_cloned().zip(x).all(|(a, b)| a == *b)
}
// ---- slices: opposite orders, slices of slices, and against the vector
conc2! { "c05_sl_opp", VL<u64>, l1(3); |v| chk(v.slice(1..3).swap(0, 1), 1), |v| chk(v.slice(0..3).swap(2, 1), 2); |v| chk(is(&v, &[100, 101, 102]), 3) }
conc2! { "c05_sl_vec", VL<u64>, l1(3); |v| chk(v.slice(0..3).slice(1..).swap(1, 0), 1), |v| chk(v.swap(1, 2), 2); |v| chk(is(&v, &[100, 101, 102]), 3) }
conc2! { "c05_sl_chain", VD<u64>, pre(dbl(), 5); |v| chk(v.slice(3..).swap(1, 0), 1), |v| chk(v.slice(2..5).swap(0, 2), 2);
    |v| { chk(is(&v, &[100, 101, 103, 104, 102]) || is(&v, &[100, 101, 104, 102, 103]), 3) } }
conc2! { "c05_sl_rd", VL<u64>, l1(2); |v| chk(v.as_slice().swap(1, 0), 1), |v| { let s = v.slice(0..2); let a = s.get_cloned(0).unwrap(); let b = s[0].cloned(); chk((a == 100 || a == 101) && (b == 101 || b == a), 2); reach(b as u32) }; |v| chk(is(&v, &[101, 100]), 3) }
conc2! { "c05_sl_fill", VL<u64>, l1(3); |v| chk(v.slice(1..).swap(1, 0), 1), |v| v.slice(0..2).fill(7);
    |v| chk(is(&v, &[7, 7, 101]) || is(&v, &[7, 102, 7]), 3) }

// ---- large and over-aligned elements
seq!(s_c05_v_b, v_swap(lin::<Big>(), 1, 3));
seq!(s_c05_v_t, v_swap(dbl::<Tri>(), 1, 3));
seq!(s_c05_s_b, s_swap(lin::<Big>(), 2, 3));
macro_rules! typed {
    ($($n:literal $m:literal $o:literal $t:ty;)*) => {
        $( conc2! { $n, VL<$t>, pre(lin(), 3); |v| chk(v.swap(0, 1), 1), |v| chk(v.slice(1..).swap(1, 0), 2);
            |v| { let x = (v[0].cloned().val(), v[1].cloned().val(), v[2].cloned().val()); chk(x == (101, 102, 100) || x == (102, 100, 101), 3); reach(x.0 as u32) } }
        conc2! { $m, VL<$t>, pre(lin(), 2); |v| chk(v.swap(1, 0), 1), |v| out(1, v[1].replace(<$t>::mk(55)).val());
            |v| { let x = (v[0].cloned().val(), v[1].cloned().val(), got(1)); chk(x == (55, 100, 101) || x == (101, 55, 100), 3); reach(x.0 as u32) } }
        conc2! { $o, VL<$t>, pre(lin(), 2); |v| chk(v.swap(0, 1), 1), |v| { let a = v[0].cloned().val(); let b = v[0].map(|x| x.val()); chk(a == 100 || a == 101, 2); chk(b == 101 || b == a, 4); reach(b as u32) };
            |v| { chk(v[0].cloned().val() == 101 && v[1].cloned().val() == 100, 3) } } )*
    };
}
typed! {
    "c05_u8_ch" "c05_u8_re" "c05_u8_rd" u8;
    "c05_big_ch" "c05_big_re" "c05_big_rd" Big;
    "c05_tri_ch" "c05_tri_re" "c05_tri_rd" Tri;
    "c05_pair_ch" "c05_pair_re" "c05_pair_rd" Pair;
}
