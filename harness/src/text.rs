//! parsing and formatting
use crate::*;

fn parse(s: &[u8], radix: u64) {
    // the inputs are restricted to what can be in a str
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    match ApInt::from_str_radix(Radix::new(radix as u8).unwrap(), s) {
        Ok(r) => out_val("r.w", "r", &r),
        Err(e) => {
            out_err(&e);
            if let ErrorKind::InvalidStringRepr { input, .. } = e.kind() {
                out("err.len", input.len() as u64);
                for (i, b) in input.bytes().enumerate() {
                    outi("err.s", i as u64, b as u64);
                }
            }
        }
    }
}

/// any text of n ASCII characters
#[no_mangle]
pub extern "C" fn h_parse(n: u64, radix: u64, _z: u64) {
    let mut s = [0u8; 64];
    for i in 0..n as usize {
        s[i] = inp("s", i as u64, 7) as u8;
    }
    parse(&s[..n as usize], radix);
}

/// n ones, except any ASCII characters at position z and at the end
#[no_mangle]
pub extern "C" fn h_parse_at(n: u64, radix: u64, z: u64) {
    let mut s = [b'1'; 64];
    s[z as usize] = inp("s", z, 7) as u8;
    if z + 1 != n {
        s[n as usize - 1] = inp("s", n - 1, 7) as u8;
    }
    parse(&s[..n as usize], radix);
}

/// any text of n decimal-digit or letter characters valid in the radix; the digit values are the inputs.
/// mode bit 0: upper case; bit 1: an underscore after every fourth digit
#[no_mangle]
pub extern "C" fn h_parse_valid(n: u64, radix: u64, mode: u64) {
    let mut s = [0u8; 400];
    let mut k = 0;
    let bits = if radix <= 16 { 4 } else { 6 };
    for i in 0..n {
        let d = inp("d", i, bits) as u8;
        assume((d as u64) < radix);
        let letter = if mode & 1 == 1 { d.wrapping_add(b'A' - 10) } else { d.wrapping_add(b'a' - 10) };
        let digit = d.wrapping_add(b'0');
        // branch-free choice
        let m = ((d > 9) as u8).wrapping_neg();
        s[k] = (letter & m) | (digit & !m);
        k += 1;
        if mode & 2 == 2 && i % 4 == 3 && i + 1 < n {
            s[k] = b'_';
            k += 1;
        }
    }
    parse(&s[..k], radix);
}

/// a text with one two-byte character at position z among n-2 zeros
#[no_mangle]
pub extern "C" fn h_parse_utf8(n: u64, radix: u64, z: u64) {
    let mut s = [b'1'; 64];
    let hi = inp("h", NOIDX, 5) as u8;
    let lo = inp("l", NOIDX, 6) as u8;
    assume(hi >= 2);
    s[z as usize] = 0xc0 | hi;
    s[z as usize + 1] = 0x80 | lo;
    parse(&s[..n as usize], radix);
}

struct Sink<'a>(&'a mut [u8; 700], usize);
impl core::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}

/// base: 0 {:b} 1 {:x} 2 {:X} 3 {:#b} 4 {:#x} 5 {:#X}
#[no_mangle]
pub extern "C" fn h_fmt(wa: u64, base: u64, ty: u64) {
    use core::fmt::Write;
    let a = any("a", width("w", wa));
    let mut buf = [0u8; 700];
    let mut s = Sink(&mut buf, 0);
    macro_rules! on {
        ($x:expr) => {
            match base {
                0 => write!(s, "{:b}", $x),
                1 => write!(s, "{:x}", $x),
                2 => write!(s, "{:X}", $x),
                _ => return na(),
            }
        };
    }
    let r = match ty {
        0 => on!(&a),
        1 => on!(&Int::from(a.clone())),
        2 => on!(&UInt::from(a.clone())),
        _ => return na(),
    };
    out("ok", r.is_ok() as u64);
    let n = s.1;
    out("n", n as u64);
    for i in 0..n {
        outi("c", i as u64, buf[i] as u64);
    }
    out_val("a.w", "a'", &a);
}

table!(h_parse, h_parse_at, h_parse_valid, h_parse_utf8, h_fmt);
