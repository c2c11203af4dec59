//! Types of values that cross a switch. Each value in transit carries a
//! pattern derived from its serial number, fills its whole size, and reports
//! its destruction.
use crate::world::{event, violate, w, TOK, TRANSIT, VALUE};
use std::num::{NonZeroU8, NonZeroUsize};
use std::rc::Rc;

pub trait Val: 'static + Sized {
    const DROP: bool;
    fn make(s: u64) -> Self;
    fn good(&self, s: u64) -> bool;
}
fn h(s: u64, i: u64) -> u64 {
    let mut z = s.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i.wrapping_mul(0xd134_2543_de82_ef95)) ^ 0x5bd1_e995;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 31)
}
fn hb(s: u64, i: usize) -> u8 {
    h(s, i as u64) as u8
}
fn aligned<T>(p: &T) {
    let a = std::hint::black_box(p as *const T as usize);
    if a % std::mem::align_of::<T>() != 0 {
        violate(crate::world::ALIGN, "a value lies at a misaligned address");
    }
}

/// Creates the value that goes into transit.
#[inline(never)]
pub fn put<T: Val>() -> T {
    let w = w();
    if w.transit.is_some() {
        violate(TOK, "a value in transit never arrived");
    }
    let s = w.new_tok(TRANSIT, 0, 0);
    w.transit = Some(s);
    w.transit_copy = !T::DROP;
    T::make(s)
}
/// The value arrived.
#[inline(never)]
pub fn got<T: Val>(v: T) {
    let w = w();
    match w.transit.take() {
        None => violate(VALUE, "a value arrived that nobody sent"),
        Some(s) => {
            aligned(&v);
            if !v.good(s) {
                violate(VALUE, &format!("value of type {} arrived changed", std::any::type_name::<T>()));
            }
            w.toks[s as usize].state = 2;
            w.silent = true;
            drop(v);
            crate::world::w().silent = false;
        }
    }
}
/// The value arrived, and is to be destroyed by the crate right now.
#[inline(never)]
pub fn arrives() {
    let w = w();
    w.silent = true;
    w.gone = 0;
}
#[inline(never)]
pub fn gone() {
    let w = w();
    w.silent = false;
    match w.transit.take() {
        None => violate(VALUE, "a value arrived that nobody sent"),
        Some(s) => {
            if !w.transit_copy && w.gone != 1 {
                violate(TOK, &format!("a value given away with its result was destroyed {} times", w.gone));
            }
            w.toks[s as usize].state = 2;
        }
    }
}
fn dropped<T: Val>(v: &T) {
    let w = w();
    if w.silent {
        w.gone += 1;
        return;
    }
    aligned(v);
    match w.transit.take() {
        None => violate(TOK, "a value is destroyed that is not in transit (destroyed twice or duplicated)"),
        Some(s) => {
            if !v.good(s) {
                violate(VALUE, "a damaged value is destroyed");
            }
            w.toks[s as usize].state = 2;
            event("vdrop", "", 0, 0);
        }
    }
}

macro_rules! bytes {
    ($($n:ident $len:literal $(#[$a:meta])*;)*) => {$(
        $(#[$a])*
        pub struct $n([u8; $len]);
        impl Val for $n {
            const DROP: bool = true;
            fn make(s: u64) -> Self { let mut b = [0; $len]; for i in 0..$len { b[i] = hb(s, i); } $n(b) }
            fn good(&self, s: u64) -> bool { (0..$len).all(|i| self.0[i] == hb(s, i)) }
        }
        impl Drop for $n { fn drop(&mut self) { dropped(self) } }
    )*}
}
bytes! {
    Z0 0; B1 1; B2 2; B3 3; B5 5; B7 7; B8 8; B9 9; B15 15; B16 16; B17 17; B24 24; B64 64; B255 255; B1000 1000;
    A4 4 #[repr(align(4))]; A8 8 #[repr(align(8))]; A8x3 24 #[repr(align(8))];
    A16 16 #[repr(align(16))]; A32 32 #[repr(align(32))]; A64 65 #[repr(align(64))]; A512 3 #[repr(align(512))];
    Z16 0 #[repr(align(16))]; Z256 0 #[repr(align(256))];
}

macro_rules! copies {
    ($($t:ty, $s:ident => $e:expr;)*) => {$(
        impl Val for $t {
            const DROP: bool = false;
            fn make($s: u64) -> Self { $e }
            fn good(&self, s: u64) -> bool { *self == Self::make(s) }
        }
    )*}
}
static TAB: [u64; 64] = {
    let mut t = [0; 64];
    let mut i = 0;
    while i < 64 {
        t[i] = i as u64;
        i += 1;
    }
    t
};
copies! {
    (), _s => ();
    bool, s => h(s, 0) & 1 == 1;
    u8, s => h(s, 0) as u8;
    u16, s => h(s, 0) as u16;
    i32, s => h(s, 0) as i32;
    usize, s => h(s, 0) as usize;
    u64, s => h(s, 0);
    u128, s => (h(s, 0) as u128) << 64 | h(s, 1) as u128;
    char, s => char::from_u32(h(s, 0) as u32 % 0xd000).unwrap();
    f64, s => (h(s, 0) >> 12) as f64;
    [u64; 5], s => [h(s, 0), h(s, 1), h(s, 2), h(s, 3), h(s, 4)];
    [u8; 0], _s => [];
    (u8, u64), s => (h(s, 0) as u8, h(s, 1));
    Option<u32>, s => if s % 3 == 0 { None } else { Some(h(s, 0) as u32) };
    NonZeroUsize, s => NonZeroUsize::new(h(s, 0) as usize | 1).unwrap();
    Option<NonZeroU8>, s => NonZeroU8::new(if s % 3 == 0 { 0 } else { h(s, 0) as u8 });
    Option<NonZeroUsize>, s => NonZeroUsize::new(if s % 3 == 0 { 0 } else { h(s, 0) as usize });
    &'static u64, s => &TAB[(h(s, 0) % 64) as usize];
    &'static [u64], s => &TAB[(h(s, 0) % 60) as usize..];
    Result<u32, bool>, s => if s % 2 == 0 { Ok(h(s, 0) as u32) } else { Err(s % 4 == 1) };
    std::cmp::Ordering, s => [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][(h(s, 0) % 3) as usize];
}

macro_rules! owning {
    ($($n:ident ( $t:ty ) $s:ident => $mk:expr, $v:ident => $ck:expr;)*) => {$(
        pub struct $n($t);
        impl Val for $n {
            const DROP: bool = true;
            fn make($s: u64) -> Self { $n($mk) }
            fn good(&self, $s: u64) -> bool { let $v = &self.0; $ck }
        }
        impl Drop for $n { fn drop(&mut self) { dropped(self) } }
    )*}
}
pub enum E3 {
    A(Box<u64>),
    B(u8),
    C,
}
owning! {
    Bx(Box<u64>) s => Box::new(h(s, 0)), v => **v == h(s, 0);
    OptBx(Option<Box<u64>>) s => if s % 3 == 0 { None } else { Some(Box::new(h(s, 0))) },
        v => v.as_ref().map(|b| **b) == if s % 3 == 0 { None } else { Some(h(s, 0)) };
    RcV(Rc<u64>) s => Rc::new(h(s, 0)), v => **v == h(s, 0) && Rc::strong_count(v) == 1;
    Str(String) s => format!("{:x}", h(s, 0)), v => **v == format!("{:x}", h(s, 0));
    VecV(Vec<u16>) s => vec![h(s, 0) as u16; 9], v => v.len() == 9 && v.iter().all(|x| *x == h(s, 0) as u16);
    Dyn(Box<dyn Fn() -> u64>) s => { let k = h(s, 0); Box::new(move || k) }, v => v() == h(s, 0);
    En(E3) s => match s % 3 { 0 => E3::A(Box::new(h(s, 0))), 1 => E3::B(h(s, 0) as u8), _ => E3::C },
        v => match (s % 3, v) { (0, E3::A(b)) => **b == h(s, 0), (1, E3::B(b)) => *b == h(s, 0) as u8, (2, E3::C) => true, _ => false };
    BxPair((Box<u64>, u8)) s => (Box::new(h(s, 0)), hb(s, 9)), v => *v.0 == h(s, 0) && v.1 == hb(s, 9);
    NzV(NonZeroUsize) s => NonZeroUsize::new(h(s, 0) as usize | 1).unwrap(), v => v.get() == h(s, 0) as usize | 1;
}
