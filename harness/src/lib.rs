//! Drivers around the public interface of apint.
//!
//! Every `h_*` function declares its inputs with `inp`, runs operations of the crate
//! and reports what a caller can observe with `out`.  The functions are executed twice:
//! symbolically (irsym interprets the LLVM IR rustc emits for this crate and for apint)
//! and natively (the `replay` binary, which feeds in the solver's counterexample).
#![allow(clippy::missing_safety_doc)]

use apint::*;

extern "C" {
    fn sym_u64(p: *const u8, l: usize, idx: u64, bits: u64) -> u64;
    fn sym_out(p: *const u8, l: usize, idx: u64, v: u64);
    fn sym_assume(c: u64);
}

/// The executor reads the layout of an empty string from here.
#[no_mangle]
pub static PROBE_STRING: String = String::new();

pub const NOIDX: u64 = u64::MAX;

#[inline(always)]
pub fn inp(n: &'static str, idx: u64, bits: u64) -> u64 {
    unsafe { sym_u64(n.as_ptr(), n.len(), idx, bits) }
}
#[inline(always)]
pub fn out(n: &'static str, v: u64) {
    unsafe { sym_out(n.as_ptr(), n.len(), NOIDX, v) }
}
#[inline(always)]
pub fn outi(n: &'static str, idx: u64, v: u64) {
    unsafe { sym_out(n.as_ptr(), n.len(), idx, v) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u64) }
}

/// Code of a width: a plain number is that width; `SYM + n` is any width that needs n words
/// (64n-63 ..= 64n), given by a 6 bit input.
pub const SYM: u64 = 1 << 32;

#[inline(always)]
pub fn width_num(name: &'static str, code: u64) -> usize {
    if code >= SYM {
        (64 * (code - SYM - 1) + 1 + inp(name, NOIDX, 6)) as usize
    } else {
        code as usize
    }
}
#[inline(always)]
pub fn width(name: &'static str, code: u64) -> BitWidth {
    BitWidth::new(width_num(name, code)).unwrap()
}

#[inline(always)]
pub fn words(w: BitWidth) -> usize {
    (w.to_usize() - 1) / 64 + 1
}

/// Any integer of width w.
#[inline(never)]
pub fn any(name: &'static str, w: BitWidth) -> ApInt {
    let mut d = [0u64; 160];
    let n = words(w);
    for i in 0..n {
        d[i] = inp(name, i as u64, 64);
    }
    d[n - 1] &= u64::MAX >> (63 - ((w.to_usize() - 1) & 63));
    ApInt::verif_from_raw(w, &d[..n])
}

#[inline(never)]
pub fn out_val(wname: &'static str, name: &'static str, v: &ApInt) {
    let w = v.width();
    out(wname, w.to_usize() as u64);
    for i in 0..words(w) {
        outi(name, i as u64, v.verif_digit(i));
    }
}

pub fn out_err(e: &Error) {
    let (code, x, y) = match e.kind() {
        ErrorKind::InvalidRadix(r) => (1, *r as u64, 0),
        ErrorKind::InvalidStringRepr { pos_char, radix, .. } => {
            out("err.radix", radix.to_u8() as u64);
            match pos_char {
                Some((p, c)) => (2, *p as u64, *c as u32 as u64),
                None => (12, 0, 0),
            }
        }
        ErrorKind::InvalidBitAccess { pos, width } => (3, pos.to_usize() as u64, width.to_usize() as u64),
        ErrorKind::InvalidShiftAmount { shift_amount, width } => (4, shift_amount.to_usize() as u64, width.to_usize() as u64),
        ErrorKind::ValueUnrepresentable { value, .. } => {
            out_val("err.vw", "err.v", value);
            (5, 0, 0)
        }
        ErrorKind::UnmatchingBitwidth(l, r) => (6, l.to_usize() as u64, r.to_usize() as u64),
        ErrorKind::InvalidBitWidth(w) => (7, *w as u64, 0),
        ErrorKind::TruncationBitWidthTooLarge { target, current } => (8, target.to_usize() as u64, current.to_usize() as u64),
        ErrorKind::ExtensionBitWidthTooSmall { target, current } => (9, target.to_usize() as u64, current.to_usize() as u64),
        ErrorKind::DivisionByZero { lhs, .. } => {
            out_val("err.vw", "err.v", lhs);
            (10, 0, 0)
        }
        ErrorKind::ExpectedNonEmptyDigits => (11, 0, 0),
    };
    out("err", code);
    out("err.x", x);
    out("err.y", y);
}

pub trait Wrap: Sized {
    fn wrap(x: ApInt) -> Self;
    fn unwrap_(self) -> ApInt;
}
impl Wrap for ApInt {
    #[inline(always)]
    fn wrap(x: ApInt) -> ApInt {
        x
    }
    #[inline(always)]
    fn unwrap_(self) -> ApInt {
        self
    }
}
impl Wrap for Int {
    #[inline(always)]
    fn wrap(x: ApInt) -> Int {
        Int::from(x)
    }
    #[inline(always)]
    fn unwrap_(self) -> ApInt {
        self.into_apint()
    }
}
impl Wrap for UInt {
    #[inline(always)]
    fn wrap(x: ApInt) -> UInt {
        UInt::from(x)
    }
    #[inline(always)]
    fn unwrap_(self) -> ApInt {
        self.into_apint()
    }
}

/// ends a path in which the operation does not exist for this type
pub fn na() {
    out("na", 1);
}

pub mod arith;
pub mod bits;
pub mod cast;
pub mod ctor;
pub mod misc;
pub mod text;
pub mod data;

pub fn find(name: &str) -> Option<extern "C" fn(u64, u64, u64)> {
    for t in [arith::TABLE, bits::TABLE, cast::TABLE, ctor::TABLE, misc::TABLE, text::TABLE, data::TABLE] {
        for (n, f) in t {
            if *n == name {
                return Some(*f);
            }
        }
    }
    None
}

#[macro_export]
macro_rules! table {
    ($($f:ident),* $(,)?) => {
        pub const TABLE: &[(&str, extern "C" fn(u64, u64, u64))] = &[$((stringify!($f), $f)),*];
    };
}
