//! binary and unary arithmetic and bitwise operations
use crate::*;

/// forms: 0 in place, 1 consuming, 2 operator, 3 assigning operator; types: 0 ApInt, 1 Int, 2 UInt
macro_rules! bin {
    ($t:ty, $a:ident, $b:ident, $form:expr, $assign:ident, $into:ident, $op:tt, $opa:tt) => {{
        let b = <$t as Wrap>::wrap($b);
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                let r = a.$assign(&b);
                fin(r.map(|_| ()), a.unwrap_(), b.unwrap_());
            }
            1 => match a.$into(&b) {
                Ok(r) => fin(Ok(()), r.unwrap_(), b.unwrap_()),
                Err(e) => {
                    out_err(&e);
                    out_val("b.w", "b", &b.unwrap_());
                }
            },
            2 => {
                let r = a $op &b;
                fin(Ok(()), r.unwrap_(), b.unwrap_());
            }
            3 => {
                a $opa &b;
                fin(Ok(()), a.unwrap_(), b.unwrap_());
            }
            _ => na(),
        }
    }};
    // without operators
    ($t:ty, $a:ident, $b:ident, $form:expr, $assign:ident, $into:ident) => {{
        let b = <$t as Wrap>::wrap($b);
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                let r = a.$assign(&b);
                fin(r.map(|_| ()), a.unwrap_(), b.unwrap_());
            }
            1 => match a.$into(&b) {
                Ok(r) => fin(Ok(()), r.unwrap_(), b.unwrap_()),
                Err(e) => {
                    out_err(&e);
                    out_val("b.w", "b", &b.unwrap_());
                }
            },
            _ => na(),
        }
    }};
}

#[inline(never)]
fn fin(r: Result<()>, a: ApInt, b: ApInt) {
    if let Err(e) = &r {
        out_err(e);
    }
    out_val("r.w", "r", &a);
    out_val("b.w", "b", &b);
}

pub fn two(wa: u64, wb: u64) -> (ApInt, ApInt) {
    let w = width("w", wa);
    let v = if wb == 0 { w } else { width("v", wb) };
    (any("a", w), any("b", v))
}

/// op: 0 add 1 sub 2 mul 3 and 4 or 5 xor 6 div 7 rem (of the type) 8 sdiv 9 srem (ApInt only); code = op + 16*form + 256*type
#[no_mangle]
pub extern "C" fn h_bin(wa: u64, wb: u64, code: u64) {
    let (a, b) = two(wa, wb);
    bin_on(a, b, code);
}

/// the same with the right operand a given small constant (third parameter: code + 65536*constant)
#[no_mangle]
pub extern "C" fn h_bin_const(wa: u64, top: u64, code: u64) {
    let w = width("w", wa);
    let a = any("a", w);
    let mut d = [0u64; 160];
    let n = words(w);
    d[0] = code >> 16;
    d[n - 1] |= top;
    let b = ApInt::verif_from_raw(w, &d[..n]);
    bin_on(a, b, code & 0xffff);
}

fn bin_on(a: ApInt, b: ApInt, code: u64) {
    let (op, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    match (ty, op) {
        (0, 0) => bin!(ApInt, a, b, form, wrapping_add_assign, into_wrapping_add, +, +=),
        (0, 1) => bin!(ApInt, a, b, form, wrapping_sub_assign, into_wrapping_sub, -, -=),
        (0, 2) => bin!(ApInt, a, b, form, wrapping_mul_assign, into_wrapping_mul, *, *=),
        (0, 3) => bin!(ApInt, a, b, form, bitand_assign, into_bitand, &, &=),
        (0, 4) => bin!(ApInt, a, b, form, bitor_assign, into_bitor, |, |=),
        (0, 5) => bin!(ApInt, a, b, form, bitxor_assign, into_bitxor, ^, ^=),
        (0, 6) => bin!(ApInt, a, b, form, wrapping_udiv_assign, into_wrapping_udiv),
        (0, 7) => bin!(ApInt, a, b, form, wrapping_urem_assign, into_wrapping_urem),
        (0, 8) => bin!(ApInt, a, b, form, wrapping_sdiv_assign, into_wrapping_sdiv),
        (0, 9) => bin!(ApInt, a, b, form, wrapping_srem_assign, into_wrapping_srem),
        (1, 0) => bin!(Int, a, b, form, wrapping_add_assign, into_wrapping_add, +, +=),
        (1, 1) => bin!(Int, a, b, form, wrapping_sub_assign, into_wrapping_sub, -, -=),
        (1, 2) => bin!(Int, a, b, form, wrapping_mul_assign, into_wrapping_mul, *, *=),
        (1, 3) => bin!(Int, a, b, form, bitand_assign, into_bitand, &, &=),
        (1, 4) => bin!(Int, a, b, form, bitor_assign, into_bitor, |, |=),
        (1, 5) => bin!(Int, a, b, form, bitxor_assign, into_bitxor, ^, ^=),
        (1, 6) => bin!(Int, a, b, form, wrapping_div_assign, into_wrapping_div, /, /=),
        (1, 7) => bin!(Int, a, b, form, wrapping_rem_assign, into_wrapping_rem, %, %=),
        (2, 0) => bin!(UInt, a, b, form, wrapping_add_assign, into_wrapping_add, +, +=),
        (2, 1) => bin!(UInt, a, b, form, wrapping_sub_assign, into_wrapping_sub, -, -=),
        (2, 2) => bin!(UInt, a, b, form, wrapping_mul_assign, into_wrapping_mul, *, *=),
        (2, 3) => bin!(UInt, a, b, form, bitand_assign, into_bitand, &, &=),
        (2, 4) => bin!(UInt, a, b, form, bitor_assign, into_bitor, |, |=),
        (2, 5) => bin!(UInt, a, b, form, bitxor_assign, into_bitxor, ^, ^=),
        (2, 6) => bin!(UInt, a, b, form, wrapping_div_assign, into_wrapping_div, /, /=),
        (2, 7) => bin!(UInt, a, b, form, wrapping_rem_assign, into_wrapping_rem, %, %=),
        _ => na(),
    }
}

/// both results at once: 0 udivrem 1 uremdiv 2 sdivrem 3 sremdiv
#[no_mangle]
pub extern "C" fn h_divrem(wa: u64, wb: u64, op: u64) {
    let (a, b) = two(wa, wb);
    divrem_on(a, b, op);
}

#[no_mangle]
pub extern "C" fn h_divrem_const(wa: u64, top: u64, code: u64) {
    let w = width("w", wa);
    let a = any("a", w);
    let mut d = [0u64; 160];
    let n = words(w);
    d[0] = code >> 16;
    d[n - 1] |= top;
    let b = ApInt::verif_from_raw(w, &d[..n]);
    divrem_on(a, b, code & 0xffff);
}

fn divrem_on(mut a: ApInt, mut b: ApInt, op: u64) {
    let r = match op {
        0 => ApInt::wrapping_udivrem_assign(&mut a, &mut b),
        1 => ApInt::wrapping_uremdiv_assign(&mut a, &mut b),
        2 => ApInt::wrapping_sdivrem_assign(&mut a, &mut b),
        3 => ApInt::wrapping_sremdiv_assign(&mut a, &mut b),
        _ => return na(),
    };
    fin(r, a, b);
}

macro_rules! un {
    ($t:ty, $a:ident, $form:expr, $inplace:ident, $into:ident, $op:tt) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                a.$inplace();
                out_val("r.w", "r", &a.unwrap_());
            }
            1 => out_val("r.w", "r", &a.$into().unwrap_()),
            2 => out_val("r.w", "r", &($op a).unwrap_()),
            _ => na(),
        }
    }};
    ($t:ty, $a:ident, $form:expr, $inplace:ident, $into:ident) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                a.$inplace();
                out_val("r.w", "r", &a.unwrap_());
            }
            1 => out_val("r.w", "r", &a.$into().unwrap_()),
            _ => na(),
        }
    }};
    ($t:ty, $a:ident, $form:expr, $inplace:ident) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                a.$inplace();
                out_val("r.w", "r", &a.unwrap_());
            }
            _ => na(),
        }
    }};
}

/// op: 0 neg 1 not 2 inc 3 dec 4 abs 5 set_all 6 unset_all 7 flip_all 8 set_msb 9 unset_msb 10 flip_msb
#[no_mangle]
pub extern "C" fn h_un(wa: u64, _x: u64, code: u64) {
    let a = any("a", width("w", wa));
    let (op, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    match (ty, op) {
        (0, 0) => un!(ApInt, a, form, wrapping_neg, into_wrapping_neg, -),
        (1, 0) => un!(Int, a, form, wrapping_neg, into_wrapping_neg, -),
        (2, 0) => un!(UInt, a, form, wrapping_neg, into_wrapping_neg, -),
        (0, 1) => un!(ApInt, a, form, bitnot, into_bitnot, !),
        (1, 1) => un!(Int, a, form, bitnot, into_bitnot, !),
        (2, 1) => un!(UInt, a, form, bitnot, into_bitnot, !),
        (0, 2) => un!(ApInt, a, form, wrapping_inc, into_wrapping_inc),
        (0, 3) => un!(ApInt, a, form, wrapping_dec, into_wrapping_dec),
        (1, 4) => un!(Int, a, form, wrapping_abs, into_abs),
        (0, 5) => un!(ApInt, a, form, set_all),
        (1, 5) => un!(Int, a, form, set_all),
        (2, 5) => un!(UInt, a, form, set_all),
        (0, 6) => un!(ApInt, a, form, unset_all),
        (1, 6) => un!(Int, a, form, unset_all),
        (2, 6) => un!(UInt, a, form, unset_all),
        (0, 7) => un!(ApInt, a, form, flip_all),
        (1, 7) => un!(Int, a, form, flip_all),
        (2, 7) => un!(UInt, a, form, flip_all),
        (0, 8) => un!(ApInt, a, form, set_msb),
        (1, 8) => un!(Int, a, form, set_msb),
        (0, 9) => un!(ApInt, a, form, unset_msb),
        (1, 9) => un!(Int, a, form, unset_msb),
        (0, 10) => un!(ApInt, a, form, flip_msb),
        (1, 10) => un!(Int, a, form, flip_msb),
        _ => na(),
    }
}

table!(h_bin, h_bin_const, h_divrem, h_divrem_const, h_un);
