//! C19: a program without the Rust standard library (only core, alloc and the C runtime).
//! Anything that pulls std in makes the build fail (duplicate panic handler).
#![no_std]
#![no_main]
extern crate alloc;
#[path = "../../feat/src/work.rs"]
mod work;
use core::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn aligned_alloc(a: usize, n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn abort() -> !;
    fn atoi(s: *const u8) -> i32;
}
#[link(name = "c")]
extern "C" {}

struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = l.align().max(16);
        aligned_alloc(a, (l.size() + a - 1) / a * a)
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        free(p)
    }
}
#[global_allocator]
static A: C = C;

fn say(s: &str) {
    unsafe {
        write(1, s.as_ptr(), s.len());
    }
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    say(&alloc::format!("FAIL panic {}\n", i));
    unsafe { abort() }
}
#[no_mangle]
pub extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    let arg = |i: usize, d: i32| if argc as usize > i { unsafe { atoi(*argv.add(i)) } } else { d };
    let mut out = work::Out::default();
    work::run(arg(1, 1) as u64, arg(2, 20) as usize, &mut out);
    for (g, h, n) in out.groups.iter() {
        say(&alloc::format!("GROUP {} {:016x} {}\n", g, h, n));
    }
    for f in out.fails.iter() {
        say(&alloc::format!("FAIL {}\n", f));
    }
    say("DONE\n");
    0
}
// referenced by the precompiled alloc; never reached, panics abort
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    unsafe { abort() }
}
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
