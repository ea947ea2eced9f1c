//! The simulated clock of a node built for C18: every basic block of the library,
//! its dependencies and the generic code of std is a tick, and so are eight bytes
//! copied, moved, compared or filled. Two equal calls take the same time.
#[cfg(feature = "steps")]
mod on {
    use std::sync::atomic::{AtomicU64, Ordering};
    core::arch::global_asm!(
        ".hidden SIM_STEPS",
        ".comm SIM_STEPS,8,8",
        ".hidden __sanitizer_cov_trace_pc",
        ".globl __sanitizer_cov_trace_pc",
        "__sanitizer_cov_trace_pc:",
        "incq SIM_STEPS(%rip)",
        "ret",
        ".macro tick",
        "movq %rdx, %rax",
        "shrq $3, %rax",
        "addq %rax, SIM_STEPS(%rip)",
        ".endm",
        ".hidden memcpy",
        ".globl memcpy",
        "memcpy:",
        "tick",
        "movq %rdi, %rax",
        "movq %rdx, %rcx",
        "rep movsb",
        "ret",
        ".hidden memmove",
        ".globl memmove",
        "memmove:",
        "tick",
        "movq %rdi, %rax",
        "movq %rdx, %rcx",
        "movq %rdi, %r8",
        "subq %rsi, %r8",
        "cmpq %rdx, %r8",
        "jb 1f",
        "rep movsb",
        "ret",
        "1:",
        "leaq -1(%rdi,%rdx), %rdi",
        "leaq -1(%rsi,%rdx), %rsi",
        "std",
        "rep movsb",
        "cld",
        "ret",
        ".hidden memset",
        ".globl memset",
        "memset:",
        "tick",
        "movq %rdi, %r8",
        "movzbl %sil, %eax",
        "movq %rdx, %rcx",
        "rep stosb",
        "movq %r8, %rax",
        "ret",
        ".hidden memcmp",
        ".globl memcmp",
        ".hidden bcmp",
        ".globl bcmp",
        "bcmp:",
        "memcmp:",
        "tick",
        "xorl %eax, %eax",
        "xorl %ecx, %ecx",
        "2:",
        "cmpq %rdx, %rcx",
        "je 3f",
        "movzbl (%rdi,%rcx), %eax",
        "movzbl (%rsi,%rcx), %r8d",
        "incq %rcx",
        "subl %r8d, %eax",
        "je 2b",
        "3:",
        "ret",
        options(att_syntax)
    );
    extern "C" {
        static SIM_STEPS: AtomicU64;
    }
    static TAKEN: AtomicU64 = AtomicU64::new(0);
    pub fn now() -> u64 {
        unsafe { SIM_STEPS.load(Ordering::Relaxed) }
    }
    pub fn taken(begun: u64) {
        TAKEN.store(now() - begun, Ordering::Relaxed);
    }
    pub fn add(n: usize) {
        unsafe { SIM_STEPS.fetch_add(n as u64, Ordering::Relaxed) };
    }
    /// What the last call took.
    #[no_mangle]
    pub extern "C" fn node_steps() -> u64 {
        TAKEN.load(Ordering::Relaxed)
    }
}
#[cfg(not(feature = "steps"))]
mod on {
    #[inline(always)]
    pub fn now() -> u64 {
        0
    }
    #[inline(always)]
    pub fn taken(_: u64) {}
    #[inline(always)]
    pub fn add(_: usize) {}
}
pub use on::*;
