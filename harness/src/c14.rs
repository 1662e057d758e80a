//! C14: a panic in user code leaves the vector usable and sound
use crate::rt::*;
use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use orx_concurrent_vec::*;

/// an element whose Clone, PartialEq or Drop panics when it is armed: the COUNT-th use of WHAT
pub struct Trap(Box<u64>);
static WHAT: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
const CLONE: usize = 1;
const EQ: usize = 2;
const DROP: usize = 3;
const FMT: usize = 4;
fn arm(what: usize, count: usize) {
    COUNT.store(count, SeqCst);
    WHAT.store(what, SeqCst);
}
fn armed() -> bool {
    WHAT.load(SeqCst) != 0
}
fn used(what: usize) {
    if WHAT.load(SeqCst) == what {
        let c = COUNT.load(SeqCst);
        if c == 0 {
            WHAT.store(0, SeqCst);
            boom();
        } else {
            COUNT.store(c - 1, SeqCst);
        }
    }
}
impl Clone for Trap {
    fn clone(&self) -> Trap {
        used(CLONE);
        Trap(Box::new(*self.0))
    }
}
impl PartialEq for Trap {
    fn eq(&self, o: &Trap) -> bool {
        used(EQ);
        *self.0 == *o.0
    }
}
impl Drop for Trap {
    fn drop(&mut self) {
        used(DROP);
    }
}
impl core::fmt::Debug for Trap {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        used(FMT);
        Ok(())
    }
}
impl Elem for Trap {
    fn mk(x: u64) -> Trap {
        Trap(Box::new(x))
    }
    fn val(&self) -> u64 {
        *self.0
    }
}
fn tr(x: u64) -> Trap {
    Trap::mk(x)
}

/// the vector holds exactly the list, every element can be read, written and compared (none is left locked), it can
/// grow (`gap` positions are lost behind the list), and in the end nothing leaks
fn usable<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, mut l: List, gap: usize, id: u32) {
    same(&v, l.s(), id);
    let x = any();
    for i in 0..l.n {
        chk(v[i].replace(T::mk(x)).val() == l.d[i], id + 10);
        v[i].set(T::mk(l.d[i]));
        v[i].update(|e| *e = T::mk(e.val() ^ x));
        l.d[i] ^= x;
        chk(v[i] == T::mk(l.d[i]), id + 11);
    }
    if l.n > 1 {
        chk(v.swap(0, l.n - 1), id + 12);
        l.d.swap(0, l.n - 1);
        chk((v[0] == v[1]) == (l.d[0] == l.d[1]), id + 13);
    }
    for k in 0..2 {
        let p = v.push(T::mk(x));
        chk(p == l.n + gap + k, id + 14);
        chk(v.get_cloned(p).map(|e| e.val()) == Some(x), id + 15);
    }
    if gap == 0 {
        l.push(x);
        l.push(x);
        same(&v, l.s(), id + 20);
        match below(3) {
            0 => drop(v),
            1 => {
                let o = v.to_vec();
                chk(o.len() == l.n, id + 29);
            }
            _ => {
                let mut v = v;
                v.clear();
                chk(v.len() == 0 && v.push(T::mk(x)) == 0, id + 30);
                drop(v)
            }
        }
    } else {
        // the lost positions are not readable
        same(&v, l.s(), id + 40);
        let mut v = v;
        match below(6) {
            0 => {
                v.clear();
                chk(v.len() == 0 && v.push(T::mk(x)) == 0, id + 50);
                chk(v.len() == 1, id + 51);
                drop(v);
            }
            1 => {
                let m = v.maximum_capacity();
                let p = v.reserve_maximum_capacity(if m < 1000 { m + 1 } else { 0 });
                chk(p >= m && v.maximum_capacity() == p, id + 52);
                same(&v, l.s(), id + 40);
                chk(v.get_cloned(l.n + gap).map(|e| e.val()) == Some(x) && v.get(l.n + gap).is_none(), id + 53);
                for i in l.n..l.n + gap {
                    chk(v.get_cloned(i).is_none() && v.get_raw(i).is_none(), id + 54);
                }
                chk(v.push(T::mk(x)) == l.n + gap + 2, id + 55);
                same(&v, l.s(), id + 40);
            }
            // (a conversion of a vector with lost positions may fail)
            2 => {
                panics(move || drop(v.to_vec()));
            }
            3 => {
                let mut k = 0;
                panics(move || {
                    for e in v {
                        if k < l.n {
                            chk(e.val() == l.d[k], id + 56);
                        }
                        k += 1;
                    }
                });
            }
            4 => {
                let mut k = 0;
                for e in v.iter_cloned() {
                    chk(k < l.n && e.val() == l.d[k], id + 57);
                    k += 1;
                }
                chk(k == l.n && v.clone_to_vec().len() == l.n, id + 58);
            }
            _ => drop(v),
        }
    }
    chk(live() == 0, id + 60);
}

/// panics while growing
struct It {
    n: usize,
    at: usize,
    boom: usize,
    x: u64,
    stop: usize,
}
impl Iterator for It {
    type Item = Own;
    fn next(&mut self) -> Option<Own> {
        if self.at == self.stop {
            return None;
        }
        if self.at == self.boom {
            boom();
        }
        self.at += 1;
        Some(own(self.x ^ self.at as u64))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n, Some(self.n))
    }
}
impl ExactSizeIterator for It {}
fn growth<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, lo: u64, hi: u64, m: u64) {
    let mut l = filled(&v, lo, hi);
    let x = any();
    let m = range(1, m);
    // panics in the call for item k, or the iterator ends too early there
    let k = range(0, m as u64 - 1);
    let early = flag();
    let it = || It { n: m, at: 0, boom: if early { 99 } else { k }, x, stop: if early { k } else { m } };
    let mut lost = m;
    let p = match below(6) {
        0 => {
            lost = 1;
            let b = own(x);
            panics(|| {
                v.push_for_idx(|i| {
                    chk(i == l.n, 1);
                    boom();
                    b
                });
            })
        }
        1 => panics(|| {
            v.extend(it());
        }),
        2 => panics(|| {
            v.extend_n_items(it(), m);
        }),
        3 => panics(|| {
            v.extend_for_idx(|_| it(), m);
        }),
        4 => {
            lost = 0;
            let p = panics(|| {
                v.extend_for_idx(
                    |_| {
                        boom();
                        it()
                    },
                    m,
                );
            });
            usable(v, l, m, 200);
            reach(5);
            return chk(p, 2);
        }
        _ => {
            // the iterator does not provide what was asked for
            let p = panics(|| {
                v.extend_for_idx(|_| it(), m + 1);
            });
            usable(v, l, m + 1, 300);
            reach(6);
            return chk(p, 3);
        }
    };
    chk(p, 4);
    if lost == m && !(lost == 1 && v.len() == l.n) {
        for i in 0..k {
            l.push(x ^ (i + 1) as u64);
        }
        lost = m - k;
    }
    usable(v, l, lost, 100);
    reach(1);
}
seq!(s_c14_growth_l, growth(lin(), 0, q(2, 3), q(2, 3)));
seq!(s_c14_growth_d, growth(dbl(), 3, q(4, 5), q(2, 3)));
seq!(s_c14_growth_f, growth(VF::with_fixed_capacity(7), 0, q(1, 2), q(2, 3)));

/// panics in closures which see the elements
fn closures<P: IntoConcurrentPinnedVec<CE<Own>>>(v: CV<Own, P>, lo: u64, hi: u64) {
    let mut l = filled(&v, lo, hi);
    let n = l.n as u64;
    // the call for which element panics
    let k = below(n);
    let x = any();
    let i = k;
    let mut c = 0;
    let mut hit = || {
        c += 1;
        if c > k {
            boom();
        }
    };
    let s = v.as_slice();
    let p = match below(15) {
        0 => panics(|| {
            v[i].map(|_| boom());
        }),
        1 => panics(|| {
            v[i].update(|e| {
                *e = own(x);
                boom();
            })
        }) && {
            l.d[i] = x;
            true
        },
        2 => {
            let p = panics(|| {
                v.fill_with(|j| {
                    hit();
                    own(x ^ j as u64)
                })
            });
            for j in 0..k {
                l.d[j] = x ^ j as u64;
            }
            p
        }
        3 => {
            let p = panics(|| {
                s.fill_with(|j| {
                    hit();
                    own(x ^ j as u64)
                })
            });
            for j in 0..k {
                l.d[j] = x ^ j as u64;
            }
            p
        }
        4 => panics(|| {
            v.map(|_| hit()).for_each(|_| ());
        }),
        5 => panics(|| {
            s.map(|_| hit()).for_each(|_| ());
        }),
        6 => panics(|| {
            v.filter(|_| {
                hit();
                true
            })
            .for_each(|_| ());
        }),
        7 => panics(|| {
            s.filter(|_| {
                hit();
                false
            })
            .for_each(|_| ());
        }),
        8 => panics(|| {
            v.fold(own(0), |a, _| {
                hit();
                a
            });
        }),
        9 => panics(|| {
            s.fold(own(0), |a, _| {
                hit();
                a
            });
        }),
        10 => {
            assume(k > 0);
            panics(|| {
                v.reduce(|a, b| {
                    boom();
                    own(a.val() + b.val())
                });
            })
        }
        11 => {
            assume(k > 0);
            panics(|| {
                s.reduce(|a, b| {
                    boom();
                    own(a.val() + b.val())
                });
            })
        }
        12 => panics(|| {
            for e in v.iter() {
                e.map(|_| hit());
            }
        }),
        13 => panics(|| {
            s.iter().for_each(|e| {
                e.update(|e| {
                    hit();
                    *e = own(e.val())
                })
            });
        }),
        _ => panics(|| {
            for _ in v.iter_cloned() {
                hit();
            }
        }),
    };
    chk(p, 1);
    usable(v, l, 0, 100);
    reach(1);
}
seq!(s_c14_closures_l, closures(lin(), 1, q(3, 5)));
seq!(s_c14_closures_d, closures(dbl(), q(4, 1), q(5, 6)));
seq!(s_c14_closures_f, closures(VF::with_fixed_capacity(6), 1, q(2, 4)));

/// panics of Clone, PartialEq, Drop and Debug
fn traits<P: IntoConcurrentPinnedVec<CE<Trap>>>(v: CV<Trap, P>, lo: u64, hi: u64) {
    WHAT.store(0, SeqCst);
    let mut l = filled(&v, lo, hi);
    let n = l.n as u64;
    let i = below(n);
    let k = below(n);
    let x = any();
    let s = v.as_slice();
    let how = below(17);
    let p = match how {
        0 => {
            arm(CLONE, 0);
            panics(|| drop(v[i].cloned()))
        }
        1 => {
            arm(CLONE, 0);
            panics(|| drop(v.get_cloned(i)))
        }
        2 => {
            arm(CLONE, k);
            panics(|| v.iter_cloned().for_each(drop))
        }
        3 => {
            arm(CLONE, k);
            panics(|| drop(v.clone_to_vec()))
        }
        4 => {
            arm(CLONE, k);
            panics(|| drop(s.clone_to_vec()))
        }
        5 => {
            // fill clones the value, maybe not for the last position
            let y = tr(x);
            arm(CLONE, k);
            let p = panics(|| v.fill(y));
            let none = !p && k + 1 == l.n;
            for j in 0..if none { l.n } else { k } {
                l.d[j] = x;
            }
            WHAT.store(0, SeqCst);
            p || none
        }
        6 => {
            let y = tr(x);
            arm(EQ, 0);
            panics(|| {
                let _ = v[i] == y;
            })
        }
        7 => {
            arm(EQ, 0);
            panics(|| {
                let _ = v[i] == v[k];
            })
        }
        8 => {
            let y = tr(x);
            arm(EQ, 0);
            panics(|| {
                v.index_of(&y);
            })
        }
        9 => {
            let y = tr(x);
            arm(EQ, 0);
            panics(|| {
                s.contains(&y);
            })
        }
        10 => {
            arm(FMT, k);
            panics(|| drop(std::fmt::Write::write_fmt(&mut Sink, format_args!("{:?}", v))))
        }
        11 => {
            arm(FMT, 0);
            panics(|| drop(std::fmt::Write::write_fmt(&mut Sink, format_args!("{:?}", v[i]))))
        }
        12 => {
            // the old value is gone, the new one is there or dropped
            let y = tr(x);
            arm(DROP, 0);
            let p = panics(|| v[i].set(y));
            l.d[i] = v[i].map(|e| e.val());
            chk(l.d[i] == x, 5);
            p
        }
        13 => {
            arm(DROP, 0);
            let p = panics(|| v[i].update(|e| *e = tr(x)));
            l.d[i] = x;
            p
        }
        14 => {
            arm(DROP, 0);
            let p = panics(|| drop(v[i].replace(tr(x))));
            l.d[i] = x;
            p
        }
        15 => {
            // the vector as a whole
            arm(CLONE, 0);
            panics(|| drop(v.reduce(|a, _| a.clone())))
        }
        _ => {
            arm(DROP, k);
            let p = panics(|| v.fill_with(|j| tr(x ^ j as u64)));
            for j in 0..k + 1 {
                l.d[j] = x ^ j as u64;
            }
            p
        }
    };
    // not every comparison compares
    chk(p || armed() || how == 5, 1);
    WHAT.store(0, SeqCst);
    reach(how as u32 + 100 * p as u32);
    usable(v, l, 0, 100);
}
pub struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
seq!(s_c14_traits_l, traits(lin(), 1, q(3, 4)));
seq!(s_c14_traits_d, traits(dbl(), q(5, 2), q(5, 6)));
seq!(s_c14_traits_f, traits(VF::with_fixed_capacity(6), 1, q(2, 4)));

/// whole vectors: comparison, Clone, FromIterator
fn whole(lo: u64, hi: u64) {
    WHAT.store(0, SeqCst);
    let (v, w) = (dbl::<Trap>(), dbl::<Trap>());
    let l = filled(&v, lo, hi);
    for i in 0..l.n {
        w.push(tr(l.d[i]));
    }
    let k = below(l.n as u64);
    let p = match below(6) {
        0 => {
            arm(EQ, k);
            panics(|| {
                let _ = v == w;
            })
        }
        1 => {
            arm(EQ, k);
            panics(|| {
                let _ = v.as_slice() == w;
            })
        }
        2 => {
            arm(EQ, k);
            panics(|| {
                let _ = v == v;
            }) || armed()
        }
        3 => {
            let a = w.clone_to_vec();
            arm(EQ, k);
            panics(|| {
                let _ = v == a[..];
            })
        }
        4 => {
            arm(CLONE, k);
            panics(|| drop(v.clone()))
        }
        _ => {
            let mut c = 0;
            panics(|| {
                let f: VD<Trap> = (0..5)
                    .map(|_| {
                        c += 1;
                        if c > k {
                            boom();
                        }
                        tr(c as u64)
                    })
                    .collect();
                drop(f);
            })
        }
    };
    chk(p, 1);
    WHAT.store(0, SeqCst);
    same(&w, l.s(), 10);
    for i in 0..l.n {
        w[i].set(tr(1));
    }
    drop(w);
    usable(v, l, 0, 100);
}
seq!(s_c14_whole, whole(1, q(3, 4)));
seq!(s_c14_whole5, whole(5, q(5, 6)));

// ---- a thread panics in user code, others go on: nobody waits forever, and the final vector is sound
fn end<P: IntoConcurrentPinnedVec<CE<Own>>>(v: Box<CV<Own, P>>, n: usize) {
    for i in 0..n {
        chk(v[i].map(|x| x.val()) >= 100, 90);
        v[i].set(own(7));
    }
    drop(v);
    chk(live() == 0, 91);
}
fn pb<P: IntoConcurrentPinnedVec<CE<Own>>>(v: &CV<Own, P>) {
    chk(
        panics(|| {
            v.push_for_idx(|_| {
                boom();
                own(1)
            });
        }),
        80,
    );
}
// growth: the panicking call was about to allocate the fragment which the other one needs
conc2! { "c14_pp_mp", VL<Own>, o1(2); |v| pb(v), |v| { let i = v.push(own(101)); out(1, i as u64) };
    |v| { chk(v.len() == if got(1) == 2 { 3 } else { 2 }, 1); chk(v.get_cloned(g(1)).map(|x| x.val()) == Some(101), 2); reach(g(1) as u32); end(v, 2) } }
conc2! { "c14_ppd_mp", VD<Own>, pre(dbl(), 4); |v| pb(v), |v| { let i = v.push(own(101)); out(1, i as u64) };
    |v| { chk(v.len() == if got(1) == 4 { 5 } else { 4 }, 1); chk(v.get_cloned(g(1)).map(|x| x.val()) == Some(101), 2); reach(g(1) as u32); end(v, 4) } }
conc2! { "c14_pp1_mp", VL<Own>, o1(1); |v| pb(v), |v| { let i = v.push(own(101)); out(1, i as u64); let j = v.push(own(102)); out(2, j as u64) };
    |v| { chk(v.get_cloned(g(1)).map(|x| x.val()) == Some(101), 1); chk(v.get_cloned(g(2)).map(|x| x.val()) == Some(102), 2); reach((10 * g(1) + g(2)) as u32); end(v, 1) } }
conc2! { "c14_ext_mp", VL<Own>, o1(1); |v| chk(panics(|| { v.extend(It { n: 2, at: 0, boom: 1, x: 200, stop: 2 }); }), 1), |v| { let i = v.push(own(101)); out(1, i as u64) };
    |v| { chk(v.get_cloned(g(1)).map(|x| x.val()) == Some(101), 1); reach(g(1) as u32); let n = v.len(); chk(n == if g(1) == 1 { 3 } else { 2 }, 2); end(v, n) } }
conc2! { "c14_efi_mp", VL<Own>, o1(2); |v| chk(panics(|| { v.extend_for_idx(|_| { boom(); [own(1), own(2)] }, 2); }), 1), |v| { let i = v.push(own(101)); out(1, i as u64) };
    |v| { chk(v.get_cloned(g(1)).map(|x| x.val()) == Some(101), 1); reach(g(1) as u32); end(v, 2) } }
// the accessed element is not left locked
conc2! { "c14_upd_mp", VL<Own>, o1(1); |v| chk(panics(|| v[0].update(|e| { *e = own(200); boom() })), 1), |v| { let x = v[0].cloned(); out(1, x.val()) };
    |v| { chk(got(1) == 100 || got(1) == 200, 1); reach(got(1) as u32); chk(v[0].map(|x| x.val()) == 200, 2); end(v, 1) } }
conc2! { "c14_map_mp", VL<Own>, o1(1); |v| chk(panics(|| v[0].map(|_| boom())), 1), |v| { v[0].set(own(200)); };
    |v| { chk(v[0].map(|x| x.val()) == 200, 2); end(v, 1) } }
conc2! { "c14_get_mp", VL<Own>, o1(1); |v| chk(panics(|| { for e in v.iter() { e.map(|_| boom()) } }), 1), |v| { let x = v.get_cloned(0); chk(x.map(|x| x.val()) == Some(100), 1); chk(v.len() == 1, 2) };
    |v| end(v, 1) }
conc2! { "c14_fill_mp", VL<Own>, o1(2); |v| chk(panics(|| v.fill_with(|i| { if i == 1 { boom() } own(300) })), 1), |v| { v.swap(0, 1); };
    |v| { let s = v[0].map(|x| x.val()) * 1000 + v[1].map(|x| x.val()); reach(s as u32); chk(s == 300 * 1000 + 100 || s == 101 * 1000 + 300 || s == 300 * 1000 + 101, 1); end(v, 2) } }
conc2! { "c14_len_mp", VL<Own>, o1(1); |v| pb(v), |v| { chk(v.len() == 1 && v.get_cloned(1).is_none() && v.get(1).is_none(), 1); let mut k = 0; for e in v.iter() { e.map(|x| chk(x.val() == 100, 2)); k += 1 } chk(k == 1, 3) };
    |v| { chk(v.len() == 1, 4); end(v, 1) } }
