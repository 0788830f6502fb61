//! Client requests to valgrind (memcheck and callgrind); nothing happens outside valgrind.
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn request(code: u64, a: u64, b: u64, c: u64) -> u64 {
    let args: [u64; 6] = [code, a, b, c, 0, 0];
    let mut r: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, options(nostack),
        );
    }
    r
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn request(_: u64, _: u64, _: u64, _: u64) -> u64 {
    0
}

const MC: u64 = ((b'M' as u64) << 24) | ((b'C' as u64) << 16);
const CT: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

pub fn running() -> bool {
    request(0x1001, 0, 0, 0) != 0
}
/// memcheck: the bytes count as undefined from here (a secret)
pub fn secret(b: &mut [u8]) {
    request(MC + 1, b.as_mut_ptr() as u64, b.len() as u64, 0);
}
/// the value counts as defined (it is public now)
pub fn public(b: &[u8]) {
    request(MC + 2, b.as_ptr() as u64, b.len() as u64, 0);
}
pub fn secret_val<T>(x: &mut T) {
    request(MC + 1, x as *mut T as u64, std::mem::size_of::<T>() as u64, 0);
}
pub fn public_val<T>(x: &T) {
    request(MC + 2, x as *const T as u64, std::mem::size_of::<T>() as u64, 0);
}
/// errors reported so far, repetitions included
pub fn errors() -> u64 {
    request(0x1201, 0, 0, 0)
}
/// how many of these bytes are undefined (valid bits), for self tests
pub fn tainted(b: &[u8]) -> usize {
    let mut v = vec![0u8; b.len()];
    // GET_VBITS
    if request(MC + 8, b.as_ptr() as u64, v.as_mut_ptr() as u64, b.len() as u64) != 1 {
        return 0;
    }
    v.iter().filter(|x| **x != 0).count()
}
/// callgrind: forget the counts so far
pub fn zero_counts() {
    request(CT + 1, 0, 0, 0);
}
/// callgrind: write the counts out
pub fn dump_counts(name: &std::ffi::CStr) {
    request(CT + 3, name.as_ptr() as u64, 0, 0);
}
/// callgrind: counting on or off
pub fn toggle() {
    request(CT + 2, 0, 0, 0);
}
