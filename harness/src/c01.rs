//! C01: concurrent growth hands out unique, dense positions
use crate::rt::*;
use orx_concurrent_vec::*;

// ---- sequential: every sequence of k growth calls (kinds and sizes arbitrary)
fn seq_ops<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, pre: u64, k: usize, maxn: u64) {
    let mut l = List::new();
    let n0 = range(0, pre);
    for _ in 0..n0 {
        let x = any();
        chk(v.push(T::mk(x)) == l.n, 1);
        l.push(x);
    }
    for _ in 0..k {
        let kind = below(5);
        let n = if kind < 2 { 1 } else { range(0, maxn) };
        let x = any();
        let at = l.n;
        let pos = match kind {
            0 => v.push(T::mk(x)),
            1 => v.push_for_idx(|i| {
                chk(i == at, 2);
                T::mk(x.wrapping_add(i as u64))
            }),
            2 => v.extend((0..n).map(|q| T::mk(x.wrapping_mul(3).wrapping_add(q as u64)))),
            3 => v.extend_for_idx(
                |i| {
                    chk(i == at || n == 0, 3);
                    (0..n).map(move |q| T::mk(x ^ ((i + q) as u64)))
                },
                n,
            ),
            // an iterator which yields more than requested: only n are taken
            _ => v.extend_n_items((0u64..20).map(|q| T::mk(x.wrapping_sub(q))), n),
        };
        chk(pos == at || n == 0, 4);
        for q in 0..n {
            let q64 = q as u64;
            l.push(match kind {
                0 => x,
                1 => x.wrapping_add(at as u64),
                2 => x.wrapping_mul(3).wrapping_add(q64),
                3 => x ^ ((at + q) as u64),
                _ => x.wrapping_sub(q64),
            });
        }
        same(&v, l.s(), 10);
        reach(kind as u32);
    }
}
seq!(s_c01_ops_l, seq_ops(VL::<u64>::with_linear_growth(1, 6), q(2, 3), 2, q(3, 5)));
seq!(s_c01_ops_l2, seq_ops(VL::<u64>::with_linear_growth(2, 3), q(3, 5), 2, q(4, 6)));
seq!(s_c01_ops_d, seq_ops(dbl::<u64>(), q(3, 5), 2, q(4, 6)));
seq!(s_c01_ops_f, seq_ops(VF::<u64>::with_fixed_capacity(12), q(3, 4), 2, q(4, 4)));
seq!(s_c01_ops_o, seq_ops(VL::<Own>::with_linear_growth(1, 6), q(2, 3), 2, q(3, 4)));
seq!(s_c01_ops3_l, seq_ops(VL::<u64>::with_linear_growth(1, 6), q(0,1), 3, q(2, 3)));
/// long extends over several fragments
fn seq_long<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, n: usize) {
    let a = below(q(2, 4));
    for i in 0..a {
        v.push(i as u64);
    }
    let x = any();
    let m = match below(3) {
        0 => 7,
        1 => n / 2,
        _ => n,
    };
    chk(v.extend((0..m).map(|q| x ^ (q as u64))) == a, 1);
    chk(v.push(5) == a + m, 2);
    chk(v.len() == a + m + 1, 3);
    for i in 0..a {
        chk(v.get_cloned(i) == Some(i as u64), 4);
    }
    for i in 0..m {
        chk(v.get_cloned(a + i) == Some(x ^ (i as u64)), 5);
    }
    chk(v.get_cloned(a + m) == Some(5), 6);
}
seq!(s_c01_long_l, seq_long(VL::<u64>::with_linear_growth(1, 16), 24));
seq!(s_c01_long_d, seq_long(dbl::<u64>(), 40));

// ---- concurrent
/// final check: n0 old elements, then the blocks (start, values) in any order without gaps
fn blocks<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, n0: usize, bs: &[(usize, &[u64])]) {
    let total = bs.iter().fold(0, |a, b| a + b.1.len());
    chk(v.len() == n0 + total, 80);
    for i in 0..n0 {
        chk(v.get_cloned(i) == Some(100 + i as u64), 81);
    }
    for (i, b) in bs.iter().enumerate() {
        chk(b.0 >= n0 && b.0 + b.1.len() <= n0 + total, 82);
        for c in &bs[..i] {
            chk(b.0 + b.1.len() <= c.0 || c.0 + c.1.len() <= b.0, 83);
        }
        for k in 0..b.1.len() {
            chk(v.get_cloned(b.0 + k) == Some(b.1[k]), 84);
            chk(v.get(b.0 + k).is_some(), 85);
        }
    }
    // further growth continues right after, and changes nothing
    chk(v.push(77) == n0 + total, 86);
    for b in bs.iter() {
        for k in 0..b.1.len() {
            chk(v.get_cloned(b.0 + k) == Some(b.1[k]), 87);
        }
    }
    chk(v.get_cloned(n0 + total) == Some(77), 88);
    reach(if bs[0].0 < bs[1].0 { 1 } else { 2 });
}

macro_rules! grow2 {
    ($s:ident $f:ident $t1:ident $t2:ident, $ty:ty, $setup:expr, $n0:expr, $e1:expr, $b1:expr, $e2:expr, $b2:expr) => {
        conc! { $s $f, $ty, $setup;
            $t1 => |v: &$ty| { let i: usize = $e1(v); chk(v.get_cloned(i) == Some($b1[0]), 1); out(1, i as u64) },
            $t2 => |v: &$ty| { let i: usize = $e2(v); chk(v.get_cloned(i) == Some($b2[0]), 2); out(2, i as u64) };
            |v| { blocks(&v, $n0, &[(g(1), &$b1), (g(2), &$b2)]) } }
    };
}
// within a fragment, at its end, and where both calls need a new fragment
grow2! { p_c01_pp0_setup p_c01_pp0_final p_c01_pp0_t1 p_c01_pp0_t2, VL<u64>, l1(0), 0,
    |v: &VL<u64>| v.push(11), [11u64], |v: &VL<u64>| v.push(21), [21u64] }
grow2! { p_c01_pp1_setup p_c01_pp1_final p_c01_pp1_t1 p_c01_pp1_t2, VL<u64>, l1(1), 1,
    |v: &VL<u64>| v.push(11), [11u64], |v: &VL<u64>| v.push(21), [21u64] }
grow2! { p_c01_pp2_setup p_c01_pp2_final p_c01_pp2_t1 p_c01_pp2_t2, VL<u64>, l1(2), 2,
    |v: &VL<u64>| v.push(11), [11u64], |v: &VL<u64>| v.push(21), [21u64] }
grow2! { p_c01_ppd_setup p_c01_ppd_final p_c01_ppd_t1 p_c01_ppd_t2, VD<u64>, d1(3), 3,
    |v: &VD<u64>| v.push(11), [11u64], |v: &VD<u64>| v.push(21), [21u64] }
grow2! { p_c01_ppf_setup p_c01_ppf_final p_c01_ppf_t1 p_c01_ppf_t2, VF<u64>, f1(1, 4), 1,
    |v: &VF<u64>| v.push(11), [11u64], |v: &VF<u64>| v.push(21), [21u64] }
// push against extend, extend against extend
grow2! { p_c01_pe_setup p_c01_pe_final p_c01_pe_t1 p_c01_pe_t2, VL<u64>, l1(1), 1,
    |v: &VL<u64>| v.push(11), [11u64], |v: &VL<u64>| v.extend([21, 22]), [21u64, 22] }
grow2! { p_c01_ee_setup p_c01_ee_final p_c01_ee_t1 p_c01_ee_t2, VL<u64>, l1(1), 1,
    |v: &VL<u64>| v.extend([11, 12]), [11u64, 12], |v: &VL<u64>| v.extend([21, 22, 23]), [21u64, 22, 23] }
grow2! { p_c01_eed_setup p_c01_eed_final p_c01_eed_t1 p_c01_eed_t2, VD<u64>, d1(3), 3,
    |v: &VD<u64>| v.extend([11, 12]), [11u64, 12], |v: &VD<u64>| v.extend([21, 22]), [21u64, 22] }
grow2! { p_c01_en_setup p_c01_en_final p_c01_en_t1 p_c01_en_t2, VL<u64>, l1(0), 0,
    |v: &VL<u64>| v.extend_n_items([11, 12, 13], 2), [11u64, 12], |v: &VL<u64>| v.push(21), [21u64] }
grow2! { p_c01_eef_setup p_c01_eef_final p_c01_eef_t1 p_c01_eef_t2, VF<u64>, f1(1, 6), 1,
    |v: &VF<u64>| v.extend([11, 12]), [11u64, 12], |v: &VF<u64>| v.extend_n_items([21, 22], 2), [21u64, 22] }
// values computed from the position
conc! { p_c01_idx_setup p_c01_idx_final, VL<u64>, l1(1);
    p_c01_idx_t1 => |v| { let i = v.push_for_idx(|i| 1000 + i as u64); chk(v.get_cloned(i) == Some(1000 + i as u64), 1); out(1, i as u64) },
    p_c01_idx_t2 => |v| { let i = v.extend_for_idx(|i| [2000 + i as u64, 2001 + i as u64], 2); out(2, i as u64) };
    |v| { let (a, b) = (g(1), g(2)); blocks(&v, 1, &[(a, &[1000 + a as u64]), (b, &[2000 + b as u64, 2001 + b as u64])]) } }
// two calls per thread: positions of one thread increase
conc! { p_c01_two_setup p_c01_two_final, VL<u64>, l1(1);
    p_c01_two_t1 => |v| { let i = v.push(11); let j = v.push(12); chk(i < j, 1); out(1, i as u64); out(2, j as u64) },
    p_c01_two_t2 => |v| { let i = v.push(21); out(3, i as u64) };
    |v| { blocks(&v, 1, &[(g(1), &[11]), (g(2), &[12]), (g(3), &[21])]) } }
// three threads
conc! { p_c01_three_setup p_c01_three_final, VL<u64>, l1(1);
    p_c01_three_t1 => |v| { out(1, v.push(11) as u64) },
    p_c01_three_t2 => |v| { out(2, v.push(21) as u64) },
    p_c01_three_t3 => |v| { out(3, v.push(31) as u64) };
    |v| { blocks(&v, 1, &[(g(1), &[11]), (g(2), &[21]), (g(3), &[31])]) } }
// owned values: none lost, none duplicated
conc! { p_c01_own_setup p_c01_own_final, VL<Own>, { let v = lin(); v.push(own(100)); let _ = v.len(); v };
    p_c01_own_t1 => |v| { out(1, v.push(own(11)) as u64) },
    p_c01_own_t2 => |v| { out(2, v.extend([own(21), own(22)]) as u64) };
    |v| {
        let (a, b) = (g(1), g(2));
        chk((a, b) == (1, 2) || (a, b) == (3, 1), 1);
        chk(v.len() == 4 && *v[a].cloned().0 == 11 && *v[b].cloned().0 == 21 && *v[b + 1].cloned().0 == 22, 2);
        drop(v);
        chk(live() == 0, 4);
    } }

// ---- positions several fragments apart
fn apart<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, slot: u64, n: usize, x: u64) {
    let i = v.extend_n_items((0..n).map(|k| x + k as u64), n);
    out(slot, i as u64);
    chk(v.get_cloned(i + n - 1) == Some(x + n as u64 - 1), 1);
}
fn aparts<P: IntoConcurrentPinnedVec<CE<u64>>>(v: Box<CV<u64, P>>, n0: usize, n: usize, m: usize) {
    let (i, j) = (g(1), g(2));
    chk(i == n0 && j == n0 + n || j == n0 && i == n0 + m, 2);
    chk(v.len() == n0 + n + m, 3);
    for k in 0..n {
        chk(v[i + k] == 11 + k as u64, 4);
    }
    for k in 0..m {
        chk(v[j + k] == 51 + k as u64, 5);
    }
    reach(i as u32);
}
conc2! { "c01_apart_l", VL<u64>, VL::with_linear_growth(1, 8); |v| out(1, v.extend([11, 12, 13, 14]) as u64), |v| out(2, v.extend([51]) as u64); |v| aparts(v, 0, 4, 1) }
conc2! { "c01_apart_l0", VL<u64>, VL::with_linear_growth(1, 8); |v| out(1, v.extend_n_items([11, 12, 13, 14, 15], 5) as u64), |v| out(2, v.push(51) as u64); |v| aparts(v, 0, 5, 1) }
conc2! { "c01_apart_d", VD<u64>, dbl(); |v| apart(v, 1, 9, 11), |v| apart(v, 2, 1, 51); |v| aparts(v, 0, 9, 1) }
conc2! { "c01_apart_d2", VD<u64>, d1(3); |v| apart(v, 1, 2, 11), |v| apart(v, 2, 10, 51); |v| aparts(v, 3, 2, 10) }
conc2! { "c01_apart_f", VF<u64>, VF::with_fixed_capacity(12); |v| apart(v, 1, 5, 11), |v| apart(v, 2, 7, 51); |v| aparts(v, 0, 5, 7) }

// ---- large and over-aligned elements
seq!(s_c01_ops_b, seq_ops(VL::<Big>::with_linear_growth(1, 6), 1, q(1, 2) as usize, q(3, 4)));
seq!(s_c01_ops_t, seq_ops(dbl::<Tri>(), q(3, 4), q(1, 2) as usize, q(4, 5)));
macro_rules! typed {
    ($($n:literal $ty:ty, $mk:expr, $n0:expr, $t:ty;)*) => {
        $( conc2! { $n, $ty, $mk;
            |v| { let i = v.push(<$t>::mk(11)); chk(v.get_cloned(i).map(|x| x.val()) == Some(11), 1); out(1, i as u64) },
            |v| { let i = v.extend([<$t>::mk(21), <$t>::mk(22)]); chk(v.get_cloned(i + 1).map(|x| x.val()) == Some(22), 2); out(2, i as u64) };
            |v| { let (a, b) = (g(1), g(2)); chk((a, b) == ($n0, $n0 + 1) || (b, a) == ($n0, $n0 + 2), 3);
                chk(v.len() == $n0 + 3 && v[a].map(|x| x.val()) == 11 && v[b].map(|x| x.val()) == 21 && v[b + 1].map(|x| x.val()) == 22, 4); reach(a as u32) } } )*
    };
}
typed! {
    "c01_ty_u8" VL<u8>, pre(lin(), 1), 1, u8;
    "c01_ty_u32" VD<u32>, pre(dbl(), 3), 3, u32;
    "c01_ty_big" VL<Big>, pre(lin(), 1), 1, Big;
    "c01_ty_tri" VF<Tri>, pre(VF::with_fixed_capacity(4), 1), 1, Tri;
}
// ---- elements of no size
conc2! { "c01_unit", VL<Unit>, pre(lin(), 1);
    |v| { let i = v.push(Unit); chk(v.get_cloned(i).is_some(), 1); out(1, i as u64) },
    |v| { let i = v.extend([Unit, Unit]); chk(v.get_cloned(i + 1).is_some(), 2); out(2, i as u64) };
    |v| { let (a, b) = (g(1), g(2)); chk((a, b) == (1, 2) || (b, a) == (1, 3), 3); chk(v.len() == 4 && v.get(3).is_some() && v.get(4).is_none() && v.push(Unit) == 4, 4); reach(a as u32) } }
conc2! { "c01_unit_d", VD<Unit>, pre(dbl(), 3);
    |v| { let i = v.push_for_idx(|_| Unit); chk(v.get_cloned(i).is_some(), 1); out(1, i as u64) },
    |v| { let i = v.push(Unit); chk(v.get_cloned(i).is_some(), 2); out(2, i as u64) };
    |v| { let (a, b) = (g(1), g(2)); chk((a, b) == (3, 4) || (b, a) == (3, 4), 3); chk(v.len() == 5, 4); reach(a as u32) } }
