//! C08: read operations agree with a plain list of the elements
use crate::rt::*;
use orx_concurrent_vec::*;

fn at(l: &[u64], i: usize) -> Option<u64> {
    if i < l.len() {
        Some(l[i])
    } else {
        None
    }
}

/// get, get_cloned, get_copied, index with any index
fn v_get<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let l = filled(&v, 0, hi);
    let i = any() as usize;
    let want = at(l.s(), i);
    chk(v.get(i).map(|e| e.copied()) == want, 1);
    chk(v.get(i).map(|e| e.cloned()) == want, 2);
    chk(v.get_cloned(i) == want, 3);
    chk(v.get_copied(i) == want, 4);
    let mut x = None;
    let p = panics(|| x = Some(v[i].copied()));
    chk(p == want.is_none(), 5);
    chk(x == want, 6);
    chk(v.len() == l.n && v.is_empty() == (l.n == 0), 7);
    reach(if want.is_some() { 1 } else { 2 });
}
seq!(s_c08_get_l, v_get(lin::<u64>(), 5));
seq!(s_c08_get_d, v_get(dbl::<u64>(), 5));
seq!(s_c08_get_f, v_get(fix::<u64>(), 5));

fn v_iter<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64) {
    let l = filled(&v, lo, hi);
    let mut k = 0;
    for e in v.iter() {
        chk(k < l.n && e.cloned().val() == l.d[k], 1);
        k += 1;
    }
    chk(k == l.n, 2);
    k = 0;
    for e in v.iter_cloned() {
        chk(k < l.n && e.val() == l.d[k], 3);
        k += 1;
    }
    chk(k == l.n, 4);
    k = 0;
    for e in v.map(|x| x.val() ^ 5) {
        chk(k < l.n && e == l.d[k] ^ 5, 5);
        k += 1;
    }
    chk(k == l.n, 6);
    let f = v.fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(x.val()));
    let g = l.s().iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    chk(f == g, 7);
    let f = v.reduce(|a, x| T::mk(a.val().wrapping_mul(31).wrapping_add(x.val())));
    let g = l.s().iter().copied().reduce(|a, x| a.wrapping_mul(31).wrapping_add(x));
    match (f, g) {
        (Some(f), Some(g)) => chk(f.val() == g, 8),
        (None, None) => reach(8),
        _ => chk(false, 9),
    }
    let c = v.clone_to_vec();
    chk(c.len() == l.n, 10);
    for i in 0..l.n {
        chk(c[i].val() == l.d[i], 11);
    }
    reach(1);
}
seq!(s_c08_iter_l, v_iter(lin::<u64>(), 0, 5));
seq!(s_c08_iter_d, v_iter(dbl::<u64>(), 0, 6));
seq!(s_c08_iter_f, v_iter(fix::<u64>(), 0, 5));
seq!(s_c08_iter_o, v_iter(lin::<Own>(), 0, 5));

fn v_filter<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let l = filled(&v, 0, hi);
    let t = any();
    let mut k = 0;
    for e in v.filter(|x| *x > t) {
        while k < l.n && !(l.d[k] > t) {
            k += 1;
        }
        chk(k < l.n && core::ptr::eq(e, &v[k]), 1);
        k += 1;
        reach(1);
    }
    while k < l.n {
        chk(!(l.d[k] > t), 2);
        k += 1;
    }
}
seq!(s_c08_filter_l, v_filter(lin(), 4));
seq!(s_c08_filter_d, v_filter(dbl(), 5));

fn v_index_of<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, hi: u64) {
    let l = filled(&v, 0, hi);
    let t = any();
    let want = l.s().iter().position(|x| *x == t);
    chk(v.index_of(&T::mk(t)) == want, 1);
    chk(v.contains(&T::mk(t)) == want.is_some(), 2);
    reach(if want.is_some() { 1 } else { 2 });
}
seq!(s_c08_index_of_l, v_index_of(lin::<u64>(), 5));
seq!(s_c08_index_of_d, v_index_of(dbl::<Own>(), 5));

// ---- slices
fn sl<P: IntoConcurrentPinnedVec<CE<u64>>>(v: &CV<u64, P>, hi: u64) -> (List, usize, usize) {
    let l = filled(v, 0, hi);
    let b = range(0, l.n as u64);
    let a = range(0, b as u64);
    (l, a, b)
}

fn s_get<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let (l, a, b) = sl(&v, hi);
    let s = v.slice(a..b);
    let i = any() as usize;
    let want = at(&l.s()[a..b], i);
    chk(s.get(i).map(|e| e.copied()) == want, 1);
    chk(s.get_cloned(i) == want, 3);
    chk(s.get_copied(i) == want, 4);
    let mut x = None;
    let p = panics(|| x = Some(s[i].cloned()));
    chk(p == want.is_none(), 5);
    chk(x == want, 6);
    chk(s.len() == b - a && s.is_empty() == (a == b), 7);
    reach(if want.is_some() { 1 } else { 2 });
}
seq!(s_c08_sget_l, s_get(lin(), 5));
seq!(s_c08_sget_d, s_get(dbl(), 5));
seq!(s_c08_sget_f, s_get(fix(), 3));

fn s_iter<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let (m, a, b) = sl(&v, hi);
    let s = v.slice(a..b);
    let l = &m.s()[a..b];
    let mut k = 0;
    for e in s.iter() {
        chk(k < l.len() && e.cloned() == l[k], 1);
        k += 1;
    }
    chk(k == l.len(), 2);
    k = 0;
    for e in s.iter_cloned() {
        chk(k < l.len() && e == l[k], 3);
        k += 1;
    }
    chk(k == l.len(), 4);
    k = 0;
    for e in s.map(|x| x.val() ^ 5) {
        chk(k < l.len() && e == l[k] ^ 5, 5);
        k += 1;
    }
    chk(k == l.len(), 6);
    let f = s.fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(x.val()));
    let g = l.iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    chk(f == g, 7);
    let f = s.reduce(|a, x| a.wrapping_mul(31).wrapping_add(*x));
    let g = l.iter().copied().reduce(|a, x| a.wrapping_mul(31).wrapping_add(x));
    chk(f == g, 8);
    let c = s.clone_to_vec();
    chk(c.len() == l.len(), 10);
    for i in 0..l.len() {
        chk(c[i] == l[i], 11);
    }
    reach(1);
}
seq!(s_c08_siter_l, s_iter(lin(), 5));
seq!(s_c08_siter_d, s_iter(dbl(), 6));
seq!(s_c08_siter_f, s_iter(fix(), 3));

fn s_find<P: IntoConcurrentPinnedVec<CE<u64>>>(v: CV<u64, P>, hi: u64) {
    let (m, a, b) = sl(&v, hi);
    let s = v.slice(a..b);
    let l = &m.s()[a..b];
    let t = any();
    let want = l.iter().position(|x| *x == t);
    chk(s.index_of(&t) == want, 1);
    chk(s.contains(&t) == want.is_some(), 2);
    let mut k = 0;
    for e in s.filter(|x| *x > t) {
        while k < l.len() && !(l[k] > t) {
            k += 1;
        }
        chk(k < l.len() && core::ptr::eq(e, &v[a + k]), 3);
        k += 1;
        reach(1);
    }
    while k < l.len() {
        chk(!(l[k] > t), 4);
        k += 1;
    }
}
seq!(s_c08_sfind_l, s_find(lin(), 3));
seq!(s_c08_sfind_f, s_find(fix(), 3));

// ---- Debug
#[derive(Clone, Copy, PartialEq)]
struct Ch(u8);
impl core::fmt::Debug for Ch {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        use core::fmt::Write;
        f.write_char(self.0 as char)
    }
}
/// compares what is written with the text of the list
struct Sink {
    want: [u8; 24],
    n: usize,
    pos: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            chk(self.pos < self.n && self.want[self.pos] == *c, 1);
            self.pos += 1;
        }
        Ok(())
    }
}
fn text(l: &[u8]) -> Sink {
    let mut s = Sink { want: [0; 24], n: 0, pos: 0 };
    s.want[0] = b'[';
    s.n = 1;
    for i in 0..l.len() {
        if i > 0 {
            s.want[s.n] = b',';
            s.want[s.n + 1] = b' ';
            s.n += 2;
        }
        s.want[s.n] = l[i];
        s.n += 1;
    }
    s.want[s.n] = b']';
    s.n += 1;
    s
}
fn v_debug<P: IntoConcurrentPinnedVec<CE<Ch>>>(v: CV<Ch, P>, hi: u64) {
    use core::fmt::Write;
    let n = range(0, hi);
    let mut l = [0u8; 6];
    for i in 0..n {
        l[i] = b'a' + (i as u8);
        v.push(Ch(l[i]));
    }
    let mut s = text(&l[..n]);
    chk(write!(s, "{:?}", v).is_ok(), 2);
    chk(s.pos == s.n, 3);
    let b = range(0, n as u64);
    let a = range(0, b as u64);
    let mut s = text(&l[a..b]);
    chk(write!(s, "{:?}", v.slice(a..b)).is_ok(), 4);
    chk(s.pos == s.n, 5);
    reach(1);
}
seq!(s_c08_debug_l, v_debug(lin(), 4));
seq!(s_c08_debug_d, v_debug(dbl(), 5));

// ---- large and over-aligned elements
seq!(s_c08_iter_b, v_iter(lin::<Big>(), 0, q(3, 5)));
seq!(s_c08_index_of_b, v_index_of(dbl::<Big>(), q(3, 5)));
