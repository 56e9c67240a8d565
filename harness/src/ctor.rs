//! constructors
use crate::*;

fn i128_of(p: &'static str) -> u128 {
    (inp(p, 0, 64) as u128) | ((inp(p, 1, 64) as u128) << 64)
}

/// from primitives: code = kind + 256*type (+16: From impl instead of from_*)
/// kind 0 bool 1 i8 2 u8 3 i16 4 u16 5 i32 6 u32 7 i64 8 u64 9 i128 10 u128
#[no_mangle]
pub extern "C" fn h_from_prim(_x: u64, _y: u64, code: u64) {
    let (k, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    let v = match k {
        0 => inp("v", 0, 1) as u128,
        1 | 2 => inp("v", 0, 8) as u128,
        3 | 4 => inp("v", 0, 16) as u128,
        5 | 6 => inp("v", 0, 32) as u128,
        7 | 8 => inp("v", 0, 64) as u128,
        _ => i128_of("v"),
    };
    let r = match (ty, form, k) {
        (0, 0, 0) => ApInt::from_bool(v != 0),
        (0, 0, 1) => ApInt::from_i8(v as i8),
        (0, 0, 2) => ApInt::from_u8(v as u8),
        (0, 0, 3) => ApInt::from_i16(v as i16),
        (0, 0, 4) => ApInt::from_u16(v as u16),
        (0, 0, 5) => ApInt::from_i32(v as i32),
        (0, 0, 6) => ApInt::from_u32(v as u32),
        (0, 0, 7) => ApInt::from_i64(v as i64),
        (0, 0, 8) => ApInt::from_u64(v as u64),
        (0, 0, 9) => ApInt::from_i128(v as i128),
        (0, 0, 10) => ApInt::from_u128(v),
        (0, 1, 0) => ApInt::from(v != 0),
        (0, 1, 1) => ApInt::from(v as i8),
        (0, 1, 2) => ApInt::from(v as u8),
        (0, 1, 3) => ApInt::from(v as i16),
        (0, 1, 4) => ApInt::from(v as u16),
        (0, 1, 5) => ApInt::from(v as i32),
        (0, 1, 6) => ApInt::from(v as u32),
        (0, 1, 7) => ApInt::from(v as i64),
        (0, 1, 8) => ApInt::from(v as u64),
        (0, 1, 9) => ApInt::from(v as i128),
        (0, 1, 10) => ApInt::from(v),
        (1, 0, 0) => Int::from_bool(v != 0).into_apint(),
        (1, 0, 1) => Int::from_i8(v as i8).into_apint(),
        (1, 0, 3) => Int::from_i16(v as i16).into_apint(),
        (1, 0, 5) => Int::from_i32(v as i32).into_apint(),
        (1, 0, 7) => Int::from_i64(v as i64).into_apint(),
        (1, 0, 9) => Int::from_i128(v as i128).into_apint(),
        (1, 1, 0) => Int::from(v != 0).into_apint(),
        (1, 1, 1) => Int::from(v as i8).into_apint(),
        (1, 1, 3) => Int::from(v as i16).into_apint(),
        (1, 1, 5) => Int::from(v as i32).into_apint(),
        (1, 1, 7) => Int::from(v as i64).into_apint(),
        (1, 1, 9) => Int::from(v as i128).into_apint(),
        (2, 0, 0) => UInt::from_bool(v != 0).into_apint(),
        (2, 0, 2) => UInt::from_u8(v as u8).into_apint(),
        (2, 0, 4) => UInt::from_u16(v as u16).into_apint(),
        (2, 0, 6) => UInt::from_u32(v as u32).into_apint(),
        (2, 0, 8) => UInt::from_u64(v as u64).into_apint(),
        (2, 0, 10) => UInt::from_u128(v).into_apint(),
        (2, 1, 0) => UInt::from(v != 0).into_apint(),
        (2, 1, 2) => UInt::from(v as u8).into_apint(),
        (2, 1, 4) => UInt::from(v as u16).into_apint(),
        (2, 1, 6) => UInt::from(v as u32).into_apint(),
        (2, 1, 8) => UInt::from(v as u64).into_apint(),
        (2, 1, 10) => UInt::from(v).into_apint(),
        _ => return na(),
    };
    out_val("r.w", "r", &r);
}

macro_rules! arr {
    ($n:expr, $ty:expr, $($k:literal),*) => {
        match ($n, $ty) {
            $(
            ($k, 0) => { let mut d = [0u64; $k]; for i in 0..$k { d[i] = inp("v", i as u64, 64); } ApInt::from(d) }
            ($k, 1) => { let mut d = [0i64; $k]; for i in 0..$k { d[i] = inp("v", i as u64, 64) as i64; } ApInt::from(d) }
            ($k, 2) => { let mut d = [0i64; $k]; for i in 0..$k { d[i] = inp("v", i as u64, 64) as i64; } Int::from(d).into_apint() }
            ($k, 3) => { let mut d = [0u64; $k]; for i in 0..$k { d[i] = inp("v", i as u64, 64); } UInt::from(d).into_apint() }
            )*
            _ => return na(),
        }
    };
}

/// from arrays of n words; ty 0 ApInt of u64, 1 ApInt of i64, 2 Int of i64, 3 UInt of u64
#[no_mangle]
pub extern "C" fn h_from_array(n: u64, ty: u64, _y: u64) {
    let r = arr!(n, ty, 2, 3, 4, 5, 6, 7, 8, 16, 32);
    out_val("r.w", "r", &r);
}

/// constant values of any width: op 0 zero 1 one 2 all_unset 3 all_set 4 unsigned_min 5 unsigned_max 6 signed_min 7 signed_max
#[no_mangle]
pub extern "C" fn h_const(wa: u64, op: u64, ty: u64) {
    let w = width("w", wa);
    let r = match (ty, op) {
        (0, 0) => ApInt::zero(w),
        (0, 2) => ApInt::all_unset(w),
        (0, 3) => ApInt::all_set(w),
        (0, 4) => ApInt::unsigned_min_value(w),
        (0, 5) => ApInt::unsigned_max_value(w),
        (0, 6) => ApInt::signed_min_value(w),
        (0, 7) => ApInt::signed_max_value(w),
        (0, 1) => ApInt::one(w),
        (1, 0) => Int::zero(w).into_apint(),
        (1, 1) => match Int::one(w) {
            Some(x) => x.into_apint(),
            None => return out("none", 1),
        },
        (1, 2) => Int::all_unset(w).into_apint(),
        (1, 3) => Int::all_set(w).into_apint(),
        (1, 6) => Int::min_value(w).into_apint(),
        (1, 7) => Int::max_value(w).into_apint(),
        (2, 0) => UInt::zero(w).into_apint(),
        (2, 1) => UInt::one(w).into_apint(),
        (2, 2) => UInt::all_unset(w).into_apint(),
        (2, 3) => UInt::all_set(w).into_apint(),
        (2, 4) => UInt::min_value(w).into_apint(),
        (2, 5) => UInt::max_value(w).into_apint(),
        _ => return na(),
    };
    out_val("r.w", "r", &r);
}

table!(h_from_prim, h_from_array, h_const);
