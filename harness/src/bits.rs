//! bit access, predicates, counting, shifts
use crate::*;

macro_rules! val {
    ($t:ty, $a:ident, $m:ident) => {{
        let a = <$t as Wrap>::wrap($a);
        let r = a.$m();
        out("x", r as u64);
        out_val("a.w", "a'", &a.unwrap_());
    }};
}

/// op: 0 is_zero 1 is_one 2 is_all_set 3 is_all_unset 4 is_even 5 is_odd 6 is_positive 7 is_negative
///     8 count_ones 9 count_zeros 10 leading_zeros 11 trailing_zeros 12 msb 13 lsb 14 signum
#[no_mangle]
pub extern "C" fn h_pred(wa: u64, _x: u64, code: u64) {
    let a = any("a", width("w", wa));
    let (op, ty) = (code & 15, code >> 8);
    match (ty, op) {
        (0, 0) => val!(ApInt, a, is_zero),
        (1, 0) => val!(Int, a, is_zero),
        (2, 0) => val!(UInt, a, is_zero),
        (1, 1) => val!(Int, a, is_one),
        (2, 1) => val!(UInt, a, is_one),
        (0, 2) => val!(ApInt, a, is_all_set),
        (1, 2) => val!(Int, a, is_all_set),
        (2, 2) => val!(UInt, a, is_all_set),
        (0, 3) => val!(ApInt, a, is_all_unset),
        (1, 3) => val!(Int, a, is_all_unset),
        (2, 3) => val!(UInt, a, is_all_unset),
        (0, 4) => val!(ApInt, a, is_even),
        (1, 4) => val!(Int, a, is_even),
        (2, 4) => val!(UInt, a, is_even),
        (0, 5) => val!(ApInt, a, is_odd),
        (1, 5) => val!(Int, a, is_odd),
        (2, 5) => val!(UInt, a, is_odd),
        (1, 6) => val!(Int, a, is_positive),
        (1, 7) => val!(Int, a, is_negative),
        (0, 8) => val!(ApInt, a, count_ones),
        (1, 8) => val!(Int, a, count_ones),
        (2, 8) => val!(UInt, a, count_ones),
        (0, 9) => val!(ApInt, a, count_zeros),
        (1, 9) => val!(Int, a, count_zeros),
        (2, 9) => val!(UInt, a, count_zeros),
        (0, 10) => val!(ApInt, a, leading_zeros),
        (1, 10) => val!(Int, a, leading_zeros),
        (2, 10) => val!(UInt, a, leading_zeros),
        (0, 11) => val!(ApInt, a, trailing_zeros),
        (1, 11) => val!(Int, a, trailing_zeros),
        (2, 11) => val!(UInt, a, trailing_zeros),
        (0, 12) => val!(ApInt, a, msb),
        (1, 12) => val!(Int, a, msb),
        (0, 13) => val!(ApInt, a, lsb),
        (1, 14) => {
            let a = Int::from(a);
            out("x", a.signum() as i64 as u64);
            out_val("a.w", "a'", &a.into_apint());
        }
        _ => na(),
    }
}

macro_rules! bit {
    ($t:ty, $a:ident, $p:ident, $op:expr) => {{
        let mut a = <$t as Wrap>::wrap($a);
        let r = match $op {
            0 => a.get_bit_at($p).map(|b| out("x", b as u64)),
            1 => a.set_bit_at($p),
            2 => a.unset_bit_at($p),
            3 => a.flip_bit_at($p),
            _ => return na(),
        };
        if let Err(e) = &r {
            out_err(e);
        }
        out_val("r.w", "r", &a.unwrap_());
    }};
}

/// op: 0 get 1 set 2 unset 3 flip, at any position
#[no_mangle]
pub extern "C" fn h_bit(wa: u64, pbits: u64, code: u64) {
    let a = any("a", width("w", wa));
    let p = inp("p", NOIDX, pbits) as usize;
    let (op, ty) = (code & 15, code >> 8);
    match ty {
        0 => bit!(ApInt, a, p, op),
        1 => bit!(Int, a, p, op),
        2 => bit!(UInt, a, p, op),
        _ => na(),
    }
}

macro_rules! shift {
    ($t:ty, $a:ident, $s:ident, $form:expr, $assign:ident, $into:ident $(, $op:tt, $opa:tt)?) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                if let Err(e) = a.$assign($s) {
                    out_err(&e);
                }
                out_val("r.w", "r", &a.unwrap_());
            }
            1 => match a.$into($s) {
                Ok(r) => out_val("r.w", "r", &r.unwrap_()),
                Err(e) => out_err(&e),
            },
            $(
            2 => {
                let r = a $op $s;
                out_val("r.w", "r", &r.unwrap_());
            }
            3 => {
                a $opa $s;
                out_val("r.w", "r", &a.unwrap_());
            }
            )?
            _ => na(),
        }
    }};
}

/// op: 0 shl 1 lshr 2 ashr (ApInt), 3 shr (Int, UInt); by any amount of sbits bits
#[no_mangle]
pub extern "C" fn h_shift(wa: u64, sbits: u64, code: u64) {
    let a = any("a", width("w", wa));
    let s = inp("s", NOIDX, sbits) as usize;
    let (op, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    match (ty, op) {
        (0, 0) => shift!(ApInt, a, s, form, wrapping_shl_assign, into_wrapping_shl, <<, <<=),
        (1, 0) => shift!(Int, a, s, form, wrapping_shl_assign, into_wrapping_shl, <<, <<=),
        (2, 0) => shift!(UInt, a, s, form, wrapping_shl_assign, into_wrapping_shl, <<, <<=),
        (0, 1) => shift!(ApInt, a, s, form, wrapping_lshr_assign, into_wrapping_lshr),
        (0, 2) => shift!(ApInt, a, s, form, wrapping_ashr_assign, into_wrapping_ashr),
        (1, 3) => shift!(Int, a, s, form, wrapping_shr_assign, into_wrapping_shr, >>, >>=),
        (2, 3) => shift!(UInt, a, s, form, wrapping_shr_assign, into_wrapping_shr, >>, >>=),
        _ => na(),
    }
}

table!(h_pred, h_bit, h_shift);
