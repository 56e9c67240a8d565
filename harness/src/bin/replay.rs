//! Runs one driver natively with given inputs.
//!
//!     replay NAME A B C < inputs        (lines "name hexvalue")
//!
//! Prints one line per observation, and how the run ended.  The allocator checks every
//! release, keeps guard bytes around every block and never hands memory out twice.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

const CAP: usize = 1 << 16;
const RED: usize = 64;
static ON: AtomicBool = AtomicBool::new(false);
static N: AtomicUsize = AtomicUsize::new(0);
static mut REC: [(usize, usize, usize, bool); CAP] = [(0, 0, 0, false); CAP];
static BAD: AtomicUsize = AtomicUsize::new(0); // bit 0 unknown pointer, 1 double, 2 size, 3 guard

struct Chk;
unsafe fn guards(base: *mut u8, size: usize, pad: usize) -> bool {
    let mut ok = true;
    for i in 0..pad {
        ok &= *base.sub(pad).add(i) == 0x5c;
    }
    for i in 0..RED {
        ok &= *base.add(size + i) == 0x5c;
    }
    ok
}
unsafe impl GlobalAlloc for Chk {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(SeqCst) {
            return System.alloc(l);
        }
        let pad = RED.max(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad + RED, l.align().max(16)));
        for i in 0..pad {
            *p.add(i) = 0x5c;
        }
        for i in 0..l.size() {
            *p.add(pad + i) = 0xa5;
        }
        for i in 0..RED {
            *p.add(pad + l.size() + i) = 0x5c;
        }
        let i = N.fetch_add(1, SeqCst);
        if i < CAP {
            REC[i] = (p.add(pad) as usize, l.size(), l.align(), true);
        }
        p.add(pad)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = N.load(SeqCst).min(CAP);
        for i in (0..n).rev() {
            if REC[i].0 == p as usize {
                if !REC[i].3 {
                    BAD.fetch_or(2, SeqCst);
                    return;
                }
                if REC[i].1 != l.size() || REC[i].2 != l.align() {
                    BAD.fetch_or(4, SeqCst);
                }
                if !guards(p, REC[i].1, RED.max(REC[i].2)) {
                    BAD.fetch_or(8, SeqCst);
                }
                REC[i].3 = false;
                for k in 0..REC[i].1 {
                    *p.add(k) = 0xdd;
                }
                return; // never reused
            }
        }
        if ON.load(SeqCst) {
            BAD.fetch_or(1, SeqCst);
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.load(SeqCst) && !known(p as usize) {
            return System.realloc(p, l, new);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        self.dealloc(p, l);
        q
    }
}
unsafe fn known(p: usize) -> bool {
    let n = N.load(SeqCst).min(CAP);
    (0..n).any(|i| REC[i].0 == p)
}
#[global_allocator]
static A: Chk = Chk;

static mut INPUTS: Option<HashMap<String, u64>> = None;
static mut OUT: [u8; 1 << 20] = [0; 1 << 20];
static OUTN: AtomicUsize = AtomicUsize::new(0);

fn put(b: &[u8]) {
    let n = OUTN.load(SeqCst);
    if n + b.len() < (1 << 20) {
        unsafe {
            let p = core::ptr::addr_of_mut!(OUT) as *mut u8;
            core::ptr::copy_nonoverlapping(b.as_ptr(), p.add(n), b.len());
        }
        OUTN.store(n + b.len(), SeqCst);
    }
}
fn put_hex(v: u64) {
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = b"0123456789abcdef"[((v >> (60 - 4 * i)) & 15) as usize];
    }
    put(&b);
}
fn put_dec(v: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    let mut v = v;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    put(&b[i..]);
}
fn flush() {
    ON.store(false, SeqCst);
    unsafe {
        let p = core::ptr::addr_of!(OUT) as *const u8;
        let _ = std::io::stdout().write_all(core::slice::from_raw_parts(p, OUTN.load(SeqCst)));
    }
    let _ = std::io::stdout().flush();
}

#[no_mangle]
pub unsafe extern "C" fn sym_u64(p: *const u8, l: usize, idx: u64, bits: u64) -> u64 {
    let on = ON.swap(false, SeqCst);
    let n = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, l));
    let key = if idx == u64::MAX { n.to_string() } else { format!("{}{}", n, idx) };
    #[allow(static_mut_refs)]
    let v = INPUTS.as_ref().unwrap().get(&key).copied().unwrap_or(0);
    drop(key);
    ON.store(on, SeqCst);
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_out(p: *const u8, l: usize, idx: u64, v: u64) {
    put(b"out ");
    put(core::slice::from_raw_parts(p, l));
    if idx != u64::MAX {
        put_dec(idx);
    }
    put(b" ");
    put_hex(v);
    put(b"\n");
}
#[no_mangle]
pub extern "C" fn sym_assume(c: u64) {
    if c == 0 {
        put(b"end assume\n");
        flush();
        std::process::exit(0);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut m = HashMap::new();
    for l in s.lines() {
        let mut it = l.split_whitespace();
        if let (Some(k), Some(v)) = (it.next(), it.next()) {
            m.insert(k.to_string(), u64::from_str_radix(v, 16).unwrap());
        }
    }
    unsafe { INPUTS = Some(m) };
    let f = harness::find(&a[1]).expect("no such driver");
    let p = |i: usize| a.get(i).map(|x| x.parse::<u64>().unwrap()).unwrap_or(0);
    let (x, y, z) = (p(2), p(3), p(4));
    std::panic::set_hook(Box::new(|i| {
        ON.store(false, SeqCst);
        put(b"end panic ");
        let m = format!("{}", i).replace('\n', " ");
        put(m.as_bytes());
        put(b"\n");
        flush();
        std::process::exit(0);
    }));
    // plain: the system allocator, for runs under valgrind
    ON.store(std::env::var_os("VERIF_PLAIN").is_none(), SeqCst);
    f(x, y, z);
    ON.store(false, SeqCst);
    let n = N.load(SeqCst).min(CAP);
    let mut leak = 0;
    unsafe {
        for i in 0..n {
            let r = REC[i];
            if r.3 {
                leak += 1;
            }
            if r.3 && !guards(r.0 as *mut u8, r.1, RED.max(r.2)) {
                BAD.fetch_or(8, SeqCst);
            }
        }
    }
    put(b"mem ");
    put_dec(BAD.load(SeqCst) as u64);
    put(b" ");
    put_dec(leak);
    put(b"\nend return\n");
    flush();
}
