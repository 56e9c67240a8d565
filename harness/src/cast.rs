//! width changes, conversions to primitives, comparison, assignment
use crate::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

macro_rules! cast {
    ($t:ty, $a:ident, $w:ident, $form:expr, $inplace:ident, $into:ident) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                if let Err(e) = a.$inplace($w) {
                    out_err(&e);
                }
                out_val("r.w", "r", &a.unwrap_());
            }
            1 => match a.$into($w) {
                Ok(r) => out_val("r.w", "r", &r.unwrap_()),
                Err(e) => out_err(&e),
            },
            _ => na(),
        }
    }};
}
macro_rules! resize {
    ($t:ty, $a:ident, $w:ident, $form:expr, $inplace:ident, $into:ident) => {{
        let mut a = <$t as Wrap>::wrap($a);
        match $form {
            0 => {
                a.$inplace($w);
                out_val("r.w", "r", &a.unwrap_());
            }
            1 => out_val("r.w", "r", &a.$into($w).unwrap_()),
            _ => na(),
        }
    }};
}

/// op: 0 truncate 1 zero_extend 2 sign_extend 3 zero_resize 4 sign_resize (ApInt); 5 extend 6 resize (Int, UInt)
#[no_mangle]
pub extern "C" fn h_cast(wa: u64, wt: u64, code: u64) {
    let a = any("a", width("w", wa));
    let t = width("t", wt);
    let (op, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    match (ty, op) {
        (0, 0) => cast!(ApInt, a, t, form, truncate, into_truncate),
        (1, 0) => cast!(Int, a, t, form, truncate, into_truncate),
        (2, 0) => cast!(UInt, a, t, form, truncate, into_truncate),
        (0, 1) => cast!(ApInt, a, t, form, zero_extend, into_zero_extend),
        (0, 2) => cast!(ApInt, a, t, form, sign_extend, into_sign_extend),
        (0, 3) => resize!(ApInt, a, t, form, zero_resize, into_zero_resize),
        (0, 4) => resize!(ApInt, a, t, form, sign_resize, into_sign_resize),
        (1, 5) => cast!(Int, a, t, form, extend, into_extend),
        (2, 5) => cast!(UInt, a, t, form, extend, into_extend),
        (1, 6) => resize!(Int, a, t, form, resize, into_resize),
        (2, 6) => resize!(UInt, a, t, form, resize, into_resize),
        _ => na(),
    }
}

fn ob(r: Result<bool>) {
    match r {
        Ok(b) => out("x", b as u64),
        Err(e) => out_err(&e),
    }
}

/// op: 0 lt 1 le 2 gt 3 ge, 4 partial_cmp, 5 lt 6 le 7 gt 8 ge as operators; types: 0 ApInt unsigned, 1 Int, 2 UInt, 3 ApInt signed
#[no_mangle]
pub extern "C" fn h_cmp(wa: u64, wb: u64, code: u64) {
    let (a, b) = crate::arith::two(wa, wb);
    let (op, ty) = (code & 15, code >> 8);
    macro_rules! on {
        ($t:ty) => {{
            let (x, y) = (<$t>::from(a), <$t>::from(b));
            match op {
                0 => ob(x.checked_lt(&y)),
                1 => ob(x.checked_le(&y)),
                2 => ob(x.checked_gt(&y)),
                3 => ob(x.checked_ge(&y)),
                4 => out(
                    "x",
                    match x.partial_cmp(&y) {
                        Some(Ordering::Less) => 0,
                        Some(Ordering::Equal) => 1,
                        Some(Ordering::Greater) => 2,
                        None => 3,
                    },
                ),
                5 => out("x", (x < y) as u64),
                6 => out("x", (x <= y) as u64),
                7 => out("x", (x > y) as u64),
                8 => out("x", (x >= y) as u64),
                _ => na(),
            }
            out_val("a.w", "a'", &x.into_apint());
            out_val("b.w", "b'", &y.into_apint());
        }};
    }
    match ty {
        1 => on!(Int),
        2 => on!(UInt),
        _ => {
            match (ty, op) {
                (0, 0) => ob(a.checked_ult(&b)),
                (0, 1) => ob(a.checked_ule(&b)),
                (0, 2) => ob(a.checked_ugt(&b)),
                (0, 3) => ob(a.checked_uge(&b)),
                (3, 0) => ob(a.checked_slt(&b)),
                (3, 1) => ob(a.checked_sle(&b)),
                (3, 2) => ob(a.checked_sgt(&b)),
                (3, 3) => ob(a.checked_sge(&b)),
                _ => na(),
            }
            out_val("a.w", "a'", &a);
            out_val("b.w", "b'", &b);
        }
    }
}

/// A hasher that reports everything fed to it, in order, as one number per call.
struct Tap(&'static str, u64);
impl Tap {
    fn put(&mut self, kind: u64, v: u64) {
        outi(self.0, 2 * self.1, kind);
        outi(self.0, 2 * self.1 + 1, v);
        self.1 += 1;
    }
}
impl Hasher for Tap {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(1, b.len() as u64);
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.put(2, v);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.put(3, i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.put(4, i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(5, i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(6, i)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(7, i as u64)
    }
}

/// equality and the bytes fed to the hasher; type 0 ApInt 1 Int 2 UInt
#[no_mangle]
pub extern "C" fn h_eq(wa: u64, wb: u64, code: u64) {
    let (a, b) = crate::arith::two(wa, wb);
    macro_rules! on {
        ($t:ty) => {{
            let (x, y) = (<$t as Wrap>::wrap(a), <$t as Wrap>::wrap(b));
            out("eq", (x == y) as u64);
            out("ne", (x != y) as u64);
            let mut h = Tap("ha", 0);
            x.hash(&mut h);
            out("han", h.1);
            let mut h = Tap("hb", 0);
            y.hash(&mut h);
            out("hbn", h.1);
            out_val("a.w", "a'", &x.unwrap_());
            out_val("b.w", "b'", &y.unwrap_());
        }};
    }
    match code >> 8 {
        0 => on!(ApInt),
        1 => on!(Int),
        2 => on!(UInt),
        _ => na(),
    }
}

fn o128(v: u128) {
    outi("x", 0, v as u64);
    outi("x", 1, (v >> 64) as u64);
}
fn t128(r: Result<u128>) {
    match r {
        Ok(v) => o128(v),
        Err(e) => out_err(&e),
    }
}

/// conversion to primitives: op 0 bool, 1 i8 2 u8 3 i16 4 u16 5 i32 6 u32 7 i64 8 u64 9 i128 10 u128; form 0 resize_to 1 try_to.
/// Results are reported as the bit pattern of the primitive, zero-extended.
#[no_mangle]
pub extern "C" fn h_prim(wa: u64, _x: u64, code: u64) {
    let a = any("a", width("w", wa));
    let (op, form, ty) = (code & 15, (code >> 4) & 15, code >> 8);
    macro_rules! on {
        ($a:expr, $($o:expr, $rs:ident, $ts:ident, $u:ty;)*) => {
            match (op, form) {
                $(($o, 0) => o128($a.$rs() as $u as u128),
                  ($o, 1) => t128($a.$ts().map(|v| v as $u as u128)),)*
                _ => na(),
            }
        };
    }
    match ty {
        0 => {
            on!(a,
                0, resize_to_bool, try_to_bool, u8;
                1, resize_to_i8, try_to_i8, u8;
                2, resize_to_u8, try_to_u8, u8;
                3, resize_to_i16, try_to_i16, u16;
                4, resize_to_u16, try_to_u16, u16;
                5, resize_to_i32, try_to_i32, u32;
                6, resize_to_u32, try_to_u32, u32;
                7, resize_to_i64, try_to_i64, u64;
                8, resize_to_u64, try_to_u64, u64;
                9, resize_to_i128, try_to_i128, u128;
                10, resize_to_u128, try_to_u128, u128;
            );
            out_val("a.w", "a'", &a);
        }
        1 => {
            let a = Int::from(a);
            on!(a,
                0, resize_to_bool, try_to_bool, u8;
                1, resize_to_i8, try_to_i8, u8;
                3, resize_to_i16, try_to_i16, u16;
                5, resize_to_i32, try_to_i32, u32;
                7, resize_to_i64, try_to_i64, u64;
                9, resize_to_i128, try_to_i128, u128;
            );
            out_val("a.w", "a'", &a.into_apint());
        }
        2 => {
            let a = UInt::from(a);
            on!(a,
                0, resize_to_bool, try_to_bool, u8;
                2, resize_to_u8, try_to_u8, u8;
                4, resize_to_u16, try_to_u16, u16;
                6, resize_to_u32, try_to_u32, u32;
                8, resize_to_u64, try_to_u64, u64;
                10, resize_to_u128, try_to_u128, u128;
            );
            out_val("a.w", "a'", &a.into_apint());
        }
        _ => na(),
    }
}

/// op: 0 assign 1 strict_assign 2 clone.  Afterwards the target is changed and then the source,
/// so that shared storage would show.
#[no_mangle]
pub extern "C" fn h_assign(wa: u64, wb: u64, code: u64) {
    let (a, b) = crate::arith::two(wa, wb);
    let (op, ty) = (code & 15, code >> 8);
    macro_rules! on {
        ($t:ty) => {{
            let (mut x, mut y) = (<$t as Wrap>::wrap(a), <$t as Wrap>::wrap(b));
            match op {
                0 => x.assign(&y),
                1 => {
                    if let Err(e) = x.strict_assign(&y) {
                        out_err(&e);
                    }
                }
                2 => x = y.clone(),
                _ => return na(),
            }
            let x0 = x.unwrap_();
            let y0 = y.unwrap_();
            out_val("r.w", "r", &x0);
            out_val("b.w", "b'", &y0);
            x = <$t as Wrap>::wrap(x0);
            y = <$t as Wrap>::wrap(y0);
            x.flip_all();
            let y0 = y.unwrap_();
            out_val("c.w", "c", &y0);
            y = <$t as Wrap>::wrap(y0);
            x.flip_all();
            y.flip_all();
            out_val("d.w", "d", &x.unwrap_());
        }};
    }
    match ty {
        0 => on!(ApInt),
        1 => on!(Int),
        2 => on!(UInt),
        _ => na(),
    }
}

table!(h_cast, h_cmp, h_eq, h_prim, h_assign);
