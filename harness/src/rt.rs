//! Runtime interface of the harnesses: implemented by the symbolic executor, and natively for replays.
use orx_concurrent_vec::*;
pub use std::mem::ManuallyDrop;

extern "C-unwind" {
    fn vp_any(tag: u32) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, id: u32);
    fn vp_reach(id: u32);
    fn vp_panic();
    fn vp_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
    fn vp_out(slot: u64, val: u64);
    fn vp_get(slot: u64) -> u64;
    fn vp_heap_live() -> u64;
    fn vp_concrete(x: u64) -> u64;
}

/// arbitrary value
#[inline(always)]
pub fn any() -> u64 {
    unsafe { vp_any(0) }
}
/// arbitrary value below n (one path per value)
#[inline(always)]
pub fn below(n: u64) -> usize {
    let x = any();
    assume(x < n);
    unsafe { vp_concrete(x) as usize }
}
/// arbitrary value in a..=b (one path per value)
#[inline(always)]
pub fn range(a: u64, b: u64) -> usize {
    let x = any();
    assume(x >= a && x <= b);
    unsafe { vp_concrete(x) as usize }
}
/// arbitrary bool
#[inline(always)]
pub fn flag() -> bool {
    below(2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline(always)]
pub fn chk(c: bool, id: u32) {
    unsafe { vp_assert(c, id) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { vp_reach(id) }
}
/// a panic of user code
#[inline(never)]
pub fn boom() {
    unsafe { vp_panic() }
}
/// a bound: quick tier / thorough tier
#[inline(always)]
pub const fn q(quick: u64, thorough: u64) -> u64 {
    if cfg!(feature = "thorough") {
        thorough
    } else {
        quick
    }
}
#[inline(always)]
pub fn out(slot: u64, val: u64) {
    unsafe { vp_out(slot, val) }
}
#[inline(always)]
pub fn got(slot: u64) -> u64 {
    unsafe { vp_get(slot) }
}
/// number of live heap allocations
#[inline(always)]
pub fn live() -> u64 {
    unsafe { vp_heap_live() }
}

extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { (*(p as *mut Option<F>)).take() };
    if let Some(f) = f {
        f()
    }
}
/// calls f and returns whether it panicked
#[inline(never)]
pub fn panics<F: FnOnce()>(f: F) -> bool {
    let mut f = ManuallyDrop::new(Some(f));
    unsafe { vp_try(tramp::<F>, &mut f as *mut _ as *mut u8) != 0 }
}

/// sequential harness
macro_rules! seq {
    ($n:ident, $b:expr) => {
        #[no_mangle]
        pub extern "C-unwind" fn $n() {
            $b
        }
    };
}

/// concurrent harness: `setup` creates the shared context, `t`s run concurrently, `fin` runs after all joined
macro_rules! conc {
    ($s:ident $f:ident, $ty:ty, $setup:expr; $($t:ident => $te:expr),*; $fe:expr) => {
        #[no_mangle] pub extern "C-unwind" fn $s() -> *mut u8 { Box::into_raw(Box::new($setup)) as *mut u8 }
        $( #[no_mangle] pub extern "C-unwind" fn $t(c: *mut u8) {
            #[inline(always)]
            fn run<R>(c: &$ty, f: impl FnOnce(&$ty) -> R) { f(c); }
            run(unsafe { &*(c as *const $ty) }, $te)
        } )*
        #[no_mangle] pub extern "C-unwind" fn $f(c: *mut u8) {
            #[inline(always)]
            fn run<R>(c: Box<$ty>, f: impl FnOnce(Box<$ty>) -> R) { f(c); }
            run(unsafe { Box::from_raw(c as *mut $ty) }, $fe)
        }
    };
}

/// the same with generated names: conc2!("c02_name", Ctx, setup; t1, t2; fin)
macro_rules! conc2 {
    ($n:literal, $ty:ty, $setup:expr; $t1:expr, $t2:expr; $fe:expr) => {
        const _: () = {
            conc2!(@s $n, $ty, $setup, $fe);
            conc2!(@t $n, "_t1", $ty, $t1);
            conc2!(@t $n, "_t2", $ty, $t2);
        };
    };
    ($n:literal, $ty:ty, $setup:expr; $t1:expr, $t2:expr, $t3:expr; $fe:expr) => {
        const _: () = {
            conc2!(@s $n, $ty, $setup, $fe);
            conc2!(@t $n, "_t1", $ty, $t1);
            conc2!(@t $n, "_t2", $ty, $t2);
            conc2!(@t $n, "_t3", $ty, $t3);
        };
    };
    (@s $n:literal, $ty:ty, $setup:expr, $fe:expr) => {
        #[export_name = concat!("p_", $n, "_setup")]
        pub extern "C-unwind" fn setup() -> *mut u8 { Box::into_raw(Box::<$ty>::new($setup)) as *mut u8 }
        #[export_name = concat!("p_", $n, "_final")]
        pub extern "C-unwind" fn fin(c: *mut u8) {
            #[inline(always)]
            fn run<R>(c: Box<$ty>, f: impl FnOnce(Box<$ty>) -> R) { f(c); }
            run(unsafe { Box::from_raw(c as *mut $ty) }, $fe)
        }
    };
    (@t $n:literal, $k:literal, $ty:ty, $te:expr) => {
        const _: () = {
            #[export_name = concat!("p_", $n, $k)]
            pub extern "C-unwind" fn t(c: *mut u8) {
                #[inline(always)]
                fn run<R>(c: &$ty, f: impl FnOnce(&$ty) -> R) { f(c); }
                run(unsafe { &*(c as *const $ty) }, $te)
            }
        };
    };
}

pub type CE<T> = ConcurrentElement<T>;
pub type CV<T, P> = ConcurrentVec<T, P>;
pub type PL<T> = SplitVec<CE<T>, Linear>;
pub type PD<T> = SplitVec<CE<T>, Doubling>;
pub type PF<T> = FixedVec<CE<T>>;
pub type VL<T> = ConcurrentVec<T, PL<T>>;
pub type VD<T> = ConcurrentVec<T, PD<T>>;
pub type VF<T> = ConcurrentVec<T, PF<T>>;

/// fragments of 2 elements, at most 4 fragments
pub fn lin<T>() -> VL<T> {
    VL::with_linear_growth(1, 4)
}
pub fn dbl<T>() -> VD<T> {
    VD::new()
}
pub fn fix<T>() -> VF<T> {
    VF::with_fixed_capacity(5)
}

/// element type which owns heap memory: every double drop, leak or use after drop is visible to the executor
#[derive(Debug, PartialEq, Eq)]
pub struct Own(pub Box<u64>);
#[inline(always)]
pub fn own(x: u64) -> Own {
    Own(Box::new(x))
}
impl Clone for Own {
    fn clone(&self) -> Self {
        own(*self.0)
    }
}

pub trait Elem: Clone + PartialEq {
    fn mk(x: u64) -> Self;
    fn val(&self) -> u64;
}
impl Elem for u64 {
    fn mk(x: u64) -> u64 {
        x
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl Elem for u8 {
    fn mk(x: u64) -> u8 {
        x as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
impl Elem for u32 {
    fn mk(x: u64) -> u32 {
        x as u32
    }
    fn val(&self) -> u64 {
        *self as u64
    }
}
impl Elem for Own {
    fn mk(x: u64) -> Own {
        own(x)
    }
    fn val(&self) -> u64 {
        *self.0
    }
}

/// a plain list of at most 12 values: the oracle
#[derive(Clone, Copy)]
pub struct List {
    pub d: [u64; 12],
    pub n: usize,
}
impl List {
    pub fn new() -> List {
        List { d: [0; 12], n: 0 }
    }
    pub fn push(&mut self, x: u64) {
        self.d[self.n] = x;
        self.n += 1;
    }
    pub fn s(&self) -> &[u64] {
        &self.d[..self.n]
    }
}

/// fills the vector with n arbitrary values, n in lo..=hi arbitrary
pub fn filled<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, lo: u64, hi: u64) -> List {
    let n = range(lo, hi);
    let mut l = List::new();
    for _ in 0..n {
        let x = any();
        l.push(x);
        v.push(T::mk(x));
    }
    l
}
/// the vector holds exactly the elements of the list, as seen by len, get, get_cloned, iter
pub fn same<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: &CV<T, P>, l: &[u64], id: u32) {
    chk(v.len() == l.len(), id);
    for i in 0..l.len() {
        match v.get(i) {
            Some(e) => chk(e.map(|x| x.val()) == l[i], id + 1),
            None => chk(false, id + 2),
        }
        match v.get_cloned(i) {
            Some(e) => chk(e.val() == l[i], id + 3),
            None => chk(false, id + 4),
        }
    }
    chk(v.get(l.len()).is_none(), id + 5);
    chk(v.get_cloned(l.len()).is_none(), id + 6);
    let mut k = 0;
    for e in v.iter() {
        chk(k < l.len() && e.map(|x| x.val()) == l[k], id + 7);
        k += 1;
    }
    chk(k == l.len(), id + 8);
}

// ---- prepared vectors of the concurrent harnesses: n elements 100, 101, ..
pub fn pre<T: Elem, P: IntoConcurrentPinnedVec<CE<T>>>(v: CV<T, P>, n: u64) -> CV<T, P> {
    for i in 0..n {
        v.push(T::mk(100 + i));
    }
    let _ = v.len();
    v
}
/// linear growth: fragments of 2 elements
pub fn l1(n: u64) -> VL<u64> {
    pre(lin(), n)
}
/// doubling growth: the first fragments hold 4 and 8 elements
pub fn d1(n: u64) -> VD<u64> {
    pre(dbl(), n)
}
pub fn f1(n: u64, cap: usize) -> VF<u64> {
    pre(VF::with_fixed_capacity(cap), n)
}
pub fn o1(n: u64) -> VL<Own> {
    pre(lin(), n)
}
/// an out value as position
pub fn g(s: u64) -> usize {
    got(s) as usize
}
/// two words which belong together: a torn read is visible
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Pair(pub u64, pub u64);
pub fn pair(x: u64) -> Pair {
    Pair(x, x)
}
impl Elem for Pair {
    fn mk(x: u64) -> Pair {
        pair(x)
    }
    fn val(&self) -> u64 {
        if self.0 == self.1 {
            self.0
        } else {
            9999
        }
    }
}
/// moves the value out and frees the box
#[inline(never)]
pub fn unbox<T>(b: Box<T>) -> T {
    *b
}

/// many words which belong together: first, middle and last word are looked at
#[derive(Clone, Copy)]
pub struct Big(pub [u64; 17]);
impl PartialEq for Big {
    fn eq(&self, o: &Big) -> bool {
        self.val() == o.val()
    }
}
impl Elem for Big {
    fn mk(x: u64) -> Big {
        Big([x; 17])
    }
    fn val(&self) -> u64 {
        let d = &self.0;
        if (d[0] == d[8]) & (d[0] == d[16]) {
            d[0]
        } else {
            9999
        }
    }
}
/// three words, over-aligned
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Tri(pub u64, pub u64, pub u64);
impl PartialEq for Tri {
    fn eq(&self, o: &Tri) -> bool {
        (self.0 == o.0) & (self.1 == o.1) & (self.2 == o.2)
    }
}
impl Elem for Tri {
    fn mk(x: u64) -> Tri {
        Tri(x, x, x)
    }
    fn val(&self) -> u64 {
        if (self.0 == self.2) & (self.1 == self.0) {
            self.0
        } else {
            9999
        }
    }
}
/// no size, one value
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Unit;
impl Elem for Unit {
    fn mk(_: u64) -> Unit {
        Unit
    }
    fn val(&self) -> u64 {
        0
    }
}
/// owns heap memory, and is large
#[derive(Clone)]
pub struct Wide(pub Own, pub [u64; 8]);
#[inline(always)]
pub fn wide(x: u64) -> Wide {
    Wide(own(x), [x; 8])
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        self.val() == o.val()
    }
}
impl Elem for Wide {
    fn mk(x: u64) -> Wide {
        wide(x)
    }
    fn val(&self) -> u64 {
        let d = &self.1;
        if (d[0] == d[7]) & (*self.0 .0 == d[0]) {
            d[0]
        } else {
            9999
        }
    }
}
pub fn w1(n: u64) -> VL<Wide> {
    pre(lin(), n)
}
