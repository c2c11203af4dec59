//! Closures of different sizes and alignments: the object tokens they capture.
use crate::interp::Boom;
use crate::world::{event, violate, w, ALIGN, CANARY, TOK};

/// An object the program handed over or holds on a stack.
pub struct Tok {
    pub serial: u64,
    pub owner: u32,
    pub depth: u32,
    pub pan: bool,
    pub quiet: bool,
    canary: [u64; 4],
}
impl Tok {
    pub fn new(owner: u32, depth: u32, pan: bool) -> Tok {
        let s = w().new_tok(owner, depth, 0);
        Tok { serial: s, owner, depth, pan, quiet: false, canary: [s ^ 0xa5a5_5a5a_1234_8765; 4] }
    }
    pub fn intact(&self) -> bool {
        self.canary.iter().all(|c| *c == self.serial ^ 0xa5a5_5a5a_1234_8765)
    }
    /// Bookkeeping of the destruction.
    pub fn die(&self) {
        if !self.intact() {
            violate(CANARY, "an object on a stack is damaged");
        }
        let t = &mut w().toks[self.serial as usize];
        match t.state {
            1 => t.state = 2,
            2 => violate(TOK, &format!("object {}.{} is destroyed twice", self.owner, self.depth)),
            _ => violate(TOK, &format!("object {}.{} is destroyed although it was discarded", self.owner, self.depth)),
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.die();
        if !self.quiet {
            event("drop", "", self.owner as i64, self.depth as i64);
            if self.pan {
                std::panic::panic_any(Boom);
            }
        }
    }
}

pub trait Cap: 'static {
    fn new(t: Tok) -> Self;
    fn open(self) -> Tok;
}
fn al<T>(p: &T) {
    if std::hint::black_box(p as *const T as usize) % std::mem::align_of::<T>() != 0 {
        violate(ALIGN, "a captured object lies at a misaligned address");
    }
}
macro_rules! caps {
    ($($n:ident $len:literal $(#[$a:meta])*;)*) => {$(
        $(#[$a])*
        pub struct $n { t: Tok, pad: [u8; $len] }
        impl Cap for $n {
            fn new(t: Tok) -> Self { let b = t.serial as u8; $n { t, pad: [b; $len] } }
            fn open(self) -> Tok {
                al(&self);
                if self.pad.iter().any(|b| *b != self.t.serial as u8) {
                    violate(CANARY, "a captured object is damaged");
                }
                self.t
            }
        }
    )*}
}
caps! {
    K0 0; K1 1; K2 13; K3 100; K4 7 #[repr(align(32))]; K5 300 #[repr(align(16))]; K6 200 #[repr(align(256))]; K7 900;
}
impl Cap for Tok {
    fn new(t: Tok) -> Self {
        t
    }
    fn open(self) -> Tok {
        self
    }
}
/// Same for closures dropped without being run: checked where they lie.
pub struct InPlace<K: Cap>(pub Option<K>);
impl<K: Cap> Drop for InPlace<K> {
    fn drop(&mut self) {
        if let Some(k) = &self.0 {
            al(k);
        }
    }
}
