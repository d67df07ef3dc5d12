//! Output, exit and arguments (shared by mc and mcv).

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    pub fn write_all(fd: i32, mut p: &[u8]) {
        while !p.is_empty() {
            let n = unsafe { libc::write(fd, p.as_ptr().cast(), p.len()) };
            if n <= 0 {
                break;
            }
            p = &p[n as usize..];
        }
    }
    pub fn exit(code: i32) -> ! {
        unsafe { libc::_exit(code) }
    }
    pub fn args() -> Vec<String> {
        std::env::args().collect()
    }
}
/// WebAssembly: tools/wasm.mjs provides these.
#[cfg(target_arch = "wasm32")]
mod imp {
    mod import {
        #[link(wasm_import_module = "host")]
        extern "C" {
            pub fn write(fd: i32, p: *const u8, n: usize);
            pub fn exit(code: i32) -> !;
            pub fn args(p: *mut u8, cap: usize) -> usize;
        }
    }
    pub fn write_all(fd: i32, p: &[u8]) {
        unsafe { import::write(fd, p.as_ptr(), p.len()) }
    }
    pub fn exit(code: i32) -> ! {
        unsafe { import::exit(code) }
    }
    pub fn args() -> Vec<String> {
        let mut b = vec![0u8; 4096];
        let n = unsafe { import::args(b.as_mut_ptr(), b.len()) };
        String::from_utf8_lossy(&b[..n]).split('\0').map(str::to_string).collect()
    }
    static mut TRAP: fn() = || {};
    /// what to do after a trap
    pub fn trap(f: fn()) {
        unsafe { TRAP = f };
    }
    #[no_mangle]
    pub extern "C" fn on_trap() {
        unsafe { TRAP() };
        write_all(2, b"harness fault outside a call\n");
        exit(70)
    }
}
pub use imp::*;
