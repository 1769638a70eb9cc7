//! Ownership of randomness: `getrandom` and `syscall(SYS_getrandom)` are interposed by this binary.
//! Inside an execution they return a deterministic stream (seeded per execution); outside they are
//! forwarded to the kernel. This covers the `getrandom` crate (CSPRNG seeding) and the hash keys of
//! `std::collections::HashMap` (iteration orders).
use std::cell::Cell;

thread_local! {
    static STREAM: Cell<Option<(u64, u64)>> = const { Cell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Starts (or restarts) the deterministic stream of the current thread.
pub fn seed_thread(seed: u64) {
    STREAM.with(|s| s.set(Some((mix(seed), 0))));
}

/// Number of times the stream of the current thread was read.
pub fn calls() -> u64 {
    CALLS.with(Cell::get)
}

unsafe fn fill(buf: *mut u8, len: usize) -> bool {
    STREAM.with(|s| match s.get() {
        None => false,
        Some((seed, mut ctr)) => {
            let out = std::slice::from_raw_parts_mut(buf, len);
            for chunk in out.chunks_mut(8) {
                let v = mix(seed ^ mix(ctr)).to_le_bytes();
                ctr += 1;
                chunk.copy_from_slice(&v[..chunk.len()]);
            }
            s.set(Some((seed, ctr)));
            CALLS.with(|c| c.set(c.get() + 1));
            true
        }
    })
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&ret) {
        *__errno_location() = (-ret) as i32;
        return -1;
    }
    ret
}

const SYS_GETRANDOM: i64 = 318;
const SYS_GETTID: i64 = 186;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill(buf, len) {
        return len as isize;
    }
    raw(SYS_GETRANDOM, [buf as i64, len as i64, i64::from(flags), 0, 0, 0]) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && fill(a as *mut u8, b as usize) {
        return b;
    }
    raw(n, [a, b, c, d, e, f])
}

pub fn gettid() -> i64 {
    unsafe { raw(SYS_GETTID, [0; 6]) }
}
