//! validated number types, random integers, conversions between the integer types, sequences
use crate::*;

/// op 0 BitWidth::new 1 Radix::new 2 BitPos::new 3 ShiftAmount::from 4 BitWidth::from 5 Radix::from 6 BitPos::from 7 w1..w128
#[no_mangle]
pub extern "C" fn h_types(op: u64, x: u64, _y: u64) {
    match op {
        0 => match BitWidth::new(inp("v", NOIDX, 64) as usize) {
            Ok(w) => out("x", w.to_usize() as u64),
            Err(e) => out_err(&e),
        },
        1 => match Radix::new(inp("v", NOIDX, 8) as u8) {
            Ok(r) => out("x", r.to_u8() as u64),
            Err(e) => out_err(&e),
        },
        2 => match BitPos::new(inp("v", NOIDX, 64) as usize) {
            Ok(p) => out("x", p.to_usize() as u64),
            Err(e) => out_err(&e),
        },
        3 => out("x", ShiftAmount::from(inp("v", NOIDX, 64) as usize).to_usize() as u64),
        4 => out("x", BitWidth::from(inp("v", NOIDX, 64) as usize).to_usize() as u64),
        5 => out("x", Radix::from(inp("v", NOIDX, 8) as u8).to_u8() as u64),
        6 => out("x", BitPos::from(inp("v", NOIDX, 64) as usize).to_usize() as u64),
        7 => out(
            "x",
            match x {
                1 => BitWidth::w1(),
                8 => BitWidth::w8(),
                16 => BitWidth::w16(),
                32 => BitWidth::w32(),
                64 => BitWidth::w64(),
                _ => BitWidth::w128(),
            }
            .to_usize() as u64,
        ),
        _ => na(),
    }
}

/// a generator that gives arbitrary words and counts the calls
struct Gen(u64, u64);
impl rand::RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        inp("g32.", self.1, 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = inp("g", self.0, 64);
        self.0 += 1;
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.1 += 1;
        for b in dest {
            *b = 0;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> core::result::Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// op 0 random_with_width_using 1 randomize_using
#[no_mangle]
pub extern "C" fn h_rand(wa: u64, op: u64, ty: u64) {
    let w = width("w", wa);
    let mut g = Gen(0, 0);
    let r = match (ty, op) {
        (0, 0) => ApInt::random_with_width_using(w, &mut g),
        (1, 0) => Int::random_with_width_using(w, &mut g).into_apint(),
        (2, 0) => UInt::random_with_width_using(w, &mut g).into_apint(),
        (0, 1) => {
            let mut a = any("a", w);
            a.randomize_using(&mut g);
            a
        }
        (1, 1) => {
            let mut a = Int::from(any("a", w));
            a.randomize_using(&mut g);
            a.into_apint()
        }
        (2, 1) => {
            let mut a = UInt::from(any("a", w));
            a.randomize_using(&mut g);
            a.into_apint()
        }
        _ => return na(),
    };
    out("n", g.0);
    out("n32", g.1);
    out_val("r.w", "r", &r);
}

/// conversions: op 0 Int::from.into_apint 1 UInt::from.into_apint 2 Int->UInt 3 UInt->Int, 4..6 width() of each type
#[no_mangle]
pub extern "C" fn h_conv(wa: u64, op: u64, _y: u64) {
    let a = any("a", width("w", wa));
    let r = match op {
        0 => Int::from(a).into_apint(),
        1 => UInt::from(a).into_apint(),
        2 => Int::from(a).into_unsigned().into_apint(),
        3 => UInt::from(a).into_signed().into_apint(),
        4 => {
            out("x", a.width().to_usize() as u64);
            a
        }
        5 => {
            let x = Int::from(a);
            out("x", x.width().to_usize() as u64);
            x.into_apint()
        }
        6 => {
            let x = UInt::from(a);
            out("x", x.width().to_usize() as u64);
            x.into_apint()
        }
        _ => return na(),
    };
    out_val("r.w", "r", &r);
}

fn step(a: &mut ApInt, b: &ApInt, op: u64, t: BitWidth) -> bool {
    let r = match op {
        0 => {
            a.assign(b);
            Ok(())
        }
        1 => a.strict_assign(b),
        2 => a.truncate(t),
        3 => a.zero_extend(t),
        4 => a.sign_extend(t),
        5 => {
            a.zero_resize(t);
            Ok(())
        }
        6 => {
            a.sign_resize(t);
            Ok(())
        }
        7 => {
            let c = a.clone();
            *a = c.into_bitnot();
            Ok(())
        }
        8 => a.wrapping_add_assign(b),
        9 => {
            let c = core::mem::replace(a, ApInt::zero(BitWidth::w1()));
            match c.into_wrapping_sub(b) {
                Ok(c) => {
                    *a = c;
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        10 => {
            a.wrapping_inc();
            Ok(())
        }
        11 => a.try_to_u8().map(|_| ()),
        12 => a.bitxor_assign(b),
        13 => {
            a.set_all();
            Ok(())
        }
        14 => {
            let c = core::mem::replace(a, ApInt::zero(BitWidth::w1()));
            match c.into_truncate(t) {
                Ok(c) => {
                    *a = c;
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        15 => {
            let c = core::mem::replace(a, ApInt::zero(BitWidth::w1()));
            *a = c.into_sign_resize(t);
            Ok(())
        }
        _ => Ok(()),
    };
    r.is_ok()
}

/// three operations in a row on integers a, b of the given widths: code = op1 | op2<<4 | op3<<8 | words of the target widths << 12, 16, 20
#[no_mangle]
pub extern "C" fn h_seq(wa: u64, wb: u64, code: u64) {
    let (mut a, b) = crate::arith::two(wa, wb);
    let t1 = width("t1.", SYM + ((code >> 12) & 15));
    let t2 = width("t2.", SYM + ((code >> 16) & 15));
    let t3 = width("t3.", SYM + ((code >> 20) & 15));
    outi("ok", 1, step(&mut a, &b, code & 15, t1) as u64);
    outi("ok", 2, step(&mut a, &b, (code >> 4) & 15, t2) as u64);
    outi("ok", 3, step(&mut a, &b, (code >> 8) & 15, t3) as u64);
    out_val("r.w", "r", &a);
    out_val("b.w", "b'", &b);
}

table!(h_types, h_rand, h_conv, h_seq);
