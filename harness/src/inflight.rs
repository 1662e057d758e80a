//! What a thread observes while growth calls are in flight: user code which runs inside a growth call (a closure, an
//! iterator) grows the vector further and looks at it. Sequential, hence cheap for every kind of access.
use crate::rt::*;
use core::cell::Cell;
use orx_concurrent_vec::*;

pub const LEN: u32 = 1;
pub const READ: u32 = 2;
pub const RAW: u32 = 4;
const MAX: usize = 12;

/// what the calls wrote so far (written by a call which is complete)
pub struct W(pub [Cell<Option<u64>>; MAX], pub Cell<usize>);
impl W {
    pub fn new() -> W {
        W([const { Cell::new(None) }; MAX], Cell::new(0))
    }
    pub fn put(&self, i: usize, x: u64) {
        chk(i < MAX && self.0[i].get().is_none(), 900);
        self.0[i].set(Some(x));
        if i >= self.1.get() {
            self.1.set(i + 1);
        }
    }
    fn prefix(&self) -> usize {
        let mut n = 0;
        while n < MAX && self.0[n].get().is_some() {
            n += 1;
        }
        n
    }
}
pub fn look<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, w: &W, what: u32) {
    let n = w.prefix();
    let past = w.1.get() + 2;
    if what & LEN != 0 {
        chk(v.len() == n, 901);
        chk(v.is_empty() == (n == 0), 902);
        chk(v.iter().count() == n && v.iter_cloned().count() == n, 903);
        let s = v.as_slice();
        chk(s.len() == n && s.is_empty() == (n == 0) && s.iter().count() == n, 904);
        chk(v.slice(..).len() == n && v.chunks(1).len() == n, 905);
        chk(v.split_first().is_some() == (n > 0) && v.split_last().is_some() == (n > 0), 906);
        for i in 0..past {
            chk(v.get(i).is_some() == (i < n), 907);
        }
    }
    if what & READ != 0 {
        for i in 0..past {
            let x = w.0.get(i).and_then(|c| c.get());
            match v.get_cloned(i) {
                Some(y) => chk(x == Some(y.val()), 910),
                None => chk(i >= n, 911),
            }
            if let Some(e) = v.get(i) {
                chk(x == Some(e.map(|y| y.val())), 912);
            } else {
                chk(i >= n, 913);
            }
        }
        let mut k = 0;
        for e in v.iter() {
            chk(k < n && Some(e.cloned().val()) == w.0[k].get(), 914);
            k += 1;
        }
        let c = v.clone_to_vec();
        chk(c.len() == n, 915);
        let s = v.slice(0..past);
        chk(s.len() == n && s.get_cloned(n).is_none() && s.get(n).is_none(), 916);
        k = 0;
        for y in s.map(|y| y.val()) {
            chk(k < n && Some(y) == w.0[k].get() && c[k].val() == y, 917);
            k += 1;
        }
        chk(k == n && v.fold(0, |k, _| k + 1) == n, 918);
        chk(v.reduce(|_, y| y.clone()).is_some() == (n > 0), 919);
    }
    if what & RAW != 0 {
        for i in 0..past {
            let x = w.0.get(i).and_then(|c| c.get());
            chk(v.get_raw(i).map(|p| unsafe { (*p).val() }) == x, 920);
            chk(v.get_raw_mut(i).map(|p| unsafe { (*p).val() }) == x, 921);
            chk(unsafe { v.get_ref(i) }.map(|p| p.val()) == x, 922);
            chk(unsafe { v.get_mut(i) }.map(|p| p.val()) == x, 923);
            chk(v.get_raw(i) == v.get_raw_mut(i).map(|p| p as *const T), 924);
        }
        let mut k = 0;
        for x in unsafe { v.iter_ref() } {
            while w.0[k].get().is_none() {
                k += 1;
            }
            chk(w.0[k].get() == Some(x.val()), 925);
            k += 1;
        }
        chk(k == w.1.get(), 926);
        k = 0;
        for x in unsafe { v.iter_mut() } {
            while w.0[k].get().is_none() {
                k += 1;
            }
            chk(w.0[k].get() == Some(x.val()), 927);
            k += 1;
        }
        chk(k == w.1.get(), 928);
    }
}
/// an iterator which looks at the vector before it yields
struct Looking<'a, T, P: IntoConcurrentPinnedVec<CE<T>>>(&'a CV<T, P>, &'a W, u32, u64, usize, usize);
impl<'a, T: Elem, P: IntoConcurrentPinnedVec<CE<T>>> Iterator for Looking<'a, T, P> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.4 == self.5 {
            return None;
        }
        if self.4 == 0 {
            // nothing of this call is written yet
            inner(self.0, self.1, self.2, self.3 + 50);
            look(self.0, self.1, self.2);
        }
        self.4 += 1;
        Some(T::mk(self.3 + self.4 as u64 - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.5 - self.4, Some(self.5 - self.4))
    }
}
impl<'a, T: Elem, P: IntoConcurrentPinnedVec<CE<T>>> ExactSizeIterator for Looking<'a, T, P> {}

fn inner<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, w: &W, what: u32, x: u64) {
    match below(4) {
        0 => {}
        1 => {
            let i = v.push(T::mk(x));
            w.put(i, x);
        }
        2 => {
            let i = v.push_for_idx(|_| {
                look(v, w, what);
                T::mk(x)
            });
            w.put(i, x);
        }
        _ => {
            let i = v.extend_n_items((0..2).map(|k| T::mk(x + k)), 2);
            w.put(i, x);
            w.put(i + 1, x + 1);
        }
    }
}
pub fn inflight<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, lo: u64, hi: u64, what: u32) {
    let w = W::new();
    for i in 0..range(lo, hi) {
        v.push(T::mk(100 + i as u64));
        w.put(i, 100 + i as u64);
    }
    if flag() {
        look(&v, &w, what);
    }
    let x = any() & 0xffff;
    match below(4) {
        0 => {
            let i = v.push_for_idx(|_| {
                inner(&v, &w, what, x + 50);
                look(&v, &w, what);
                T::mk(x)
            });
            w.put(i, x);
        }
        1 => {
            let n = range(1, 2);
            let i = v.extend_for_idx(
                |_| {
                    inner(&v, &w, what, x + 50);
                    look(&v, &w, what);
                    (0..n).map(|k| T::mk(x + k as u64))
                },
                n,
            );
            for k in 0..n {
                w.put(i + k, x + k as u64);
            }
        }
        2 => {
            let n = range(1, 2);
            let i = v.extend_n_items(Looking(&v, &w, what, x, 0, n), n);
            for k in 0..n {
                w.put(i + k, x + k as u64);
            }
        }
        _ => {
            let n = range(1, 2);
            let i = v.extend(Looking(&v, &w, what, x, 0, n));
            for k in 0..n {
                w.put(i + k, x + k as u64);
            }
        }
    }
    look(&v, &w, what);
    inner(&v, &w, what, x + 70);
    look(&v, &w, what);
    chk(w.prefix() == w.1.get(), 930);
    drop(v);
    chk(live() == 0, 931);
    reach(1);
}
