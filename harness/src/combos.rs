// How the types of input, yield, return value and closure are combined.
// Generated once by a rotation over all shapes; the first eight are the common set.
use crate::interp::{mk, Ctor};
use crate::shapes::*;
use crate::caps::*;
#[allow(unused_imports)]
use std::num::{NonZeroU8, NonZeroUsize};

pub static COMBOS: &[Ctor] = &[
    mk::<Bx, B17, OptBx, K0>,
    mk::<B8, A32, Bx, K1>,
    mk::<Z0, B64, En, K2>,
    mk::<A64, B1, B24, K3>,
    mk::<OptBx, Z0, A8, K4>,
    mk::<B16, RcV, B3, K5>,
    mk::<B1, En, A64, K6>,
    mk::<BxPair, B8, Z256, K7>,
    #[cfg(feature = "allshapes")]
    mk::<Bx, B255, A4, K0>,
    #[cfg(feature = "allshapes")]
    mk::<B8, (u8,u64), [u64;5], K1>,
    #[cfg(feature = "allshapes")]
    mk::<Z0, Str, B7, K2>,
    #[cfg(feature = "allshapes")]
    mk::<A32, A16, Z16, K3>,
    #[cfg(feature = "allshapes")]
    mk::<B1, B9, f64, K4>,
    #[cfg(feature = "allshapes")]
    mk::<En, bool, Option<u32>, K5>,
    #[cfg(feature = "allshapes")]
    mk::<B17, B16, B15, K6>,
    #[cfg(feature = "allshapes")]
    mk::<OptBx, Z256, char, K7>,
    #[cfg(feature = "allshapes")]
    mk::<usize, u128, A8x3, K0>,
    #[cfg(feature = "allshapes")]
    mk::<A64, BxPair, B24, K1>,
    #[cfg(feature = "allshapes")]
    mk::<(), B5, NonZeroUsize, K2>,
    #[cfg(feature = "allshapes")]
    mk::<B64, Option<NonZeroUsize>, [u8;0], K3>,
    #[cfg(feature = "allshapes")]
    mk::<A8, A512, u8, K4>,
    #[cfg(feature = "allshapes")]
    mk::<NzV, B1000, &'static [u64], K5>,
    #[cfg(feature = "allshapes")]
    mk::<B3, VecV, Option<NonZeroU8>, K6>,
    #[cfg(feature = "allshapes")]
    mk::<RcV, &'static u64, u16, K7>,
    #[cfg(feature = "allshapes")]
    mk::<u64, B2, i32, K0>,
    #[cfg(feature = "allshapes")]
    mk::<B255, Dyn, Result<u32,bool>, K1>,
    #[cfg(feature = "allshapes")]
    mk::<(u8,u64), A4, std::cmp::Ordering, K2>,
    #[cfg(feature = "allshapes")]
    mk::<Str, [u64;5], Bx, K3>,
    #[cfg(feature = "allshapes")]
    mk::<A16, B7, B8, K4>,
    #[cfg(feature = "allshapes")]
    mk::<B9, Z16, Z0, K5>,
    #[cfg(feature = "allshapes")]
    mk::<bool, f64, A32, K6>,
    #[cfg(feature = "allshapes")]
    mk::<B16, Option<u32>, B1, K7>,
    #[cfg(feature = "allshapes")]
    mk::<Z256, B15, En, K0>,
    #[cfg(feature = "allshapes")]
    mk::<u128, char, B17, K1>,
    #[cfg(feature = "allshapes")]
    mk::<BxPair, A8x3, OptBx, K2>,
    #[cfg(feature = "allshapes")]
    mk::<B5, B24, usize, K3>,
    #[cfg(feature = "allshapes")]
    mk::<Option<NonZeroUsize>, NonZeroUsize, A64, K4>,
    #[cfg(feature = "allshapes")]
    mk::<A512, [u8;0], (), K5>,
    #[cfg(feature = "allshapes")]
    mk::<B1000, u8, B64, K6>,
    #[cfg(feature = "allshapes")]
    mk::<VecV, &'static [u64], A8, K7>,
    #[cfg(feature = "allshapes")]
    mk::<&'static u64, Option<NonZeroU8>, NzV, K0>,
    #[cfg(feature = "allshapes")]
    mk::<B2, u16, B3, K1>,
    #[cfg(feature = "allshapes")]
    mk::<Dyn, i32, RcV, K2>,
    #[cfg(feature = "allshapes")]
    mk::<A4, Result<u32,bool>, u64, K3>,
    #[cfg(feature = "allshapes")]
    mk::<[u64;5], std::cmp::Ordering, B255, K4>,
    #[cfg(feature = "allshapes")]
    mk::<B7, Bx, (u8,u64), K5>,
    #[cfg(feature = "allshapes")]
    mk::<Z16, B8, Str, K6>,
    #[cfg(feature = "allshapes")]
    mk::<f64, Z0, A16, K7>,
    #[cfg(feature = "allshapes")]
    mk::<Option<u32>, A32, B9, K0>,
    #[cfg(feature = "allshapes")]
    mk::<B15, B1, bool, K1>,
    #[cfg(feature = "allshapes")]
    mk::<char, En, B16, K2>,
    #[cfg(feature = "allshapes")]
    mk::<A8x3, B17, Z256, K3>,
    #[cfg(feature = "allshapes")]
    mk::<B24, OptBx, u128, K4>,
    #[cfg(feature = "allshapes")]
    mk::<NonZeroUsize, usize, BxPair, K5>,
    #[cfg(feature = "allshapes")]
    mk::<[u8;0], A64, B5, K6>,
    #[cfg(feature = "allshapes")]
    mk::<u8, (), Option<NonZeroUsize>, K7>,
    #[cfg(feature = "allshapes")]
    mk::<&'static [u64], B64, A512, K0>,
    #[cfg(feature = "allshapes")]
    mk::<Option<NonZeroU8>, A8, B1000, K1>,
    #[cfg(feature = "allshapes")]
    mk::<u16, NzV, VecV, K2>,
    #[cfg(feature = "allshapes")]
    mk::<i32, B3, &'static u64, K3>,
    #[cfg(feature = "allshapes")]
    mk::<Result<u32,bool>, RcV, B2, K4>,
    #[cfg(feature = "allshapes")]
    mk::<std::cmp::Ordering, u64, Dyn, K5>,
];
