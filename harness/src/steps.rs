//! Counts the basic blocks the current thread executes. Only in the build whose code calls
//! `__sanitizer_cov_trace_pc` on every edge; the callback is written in assembly so that it is not
//! instrumented itself.
#[cfg(feature = "steps")]
std::arch::global_asm!(
    r#"
    .section .tbss.vv_steps,"awT",@nobits
    .p2align 3
vv_steps_count:
    .zero 8
    .text
    .globl __sanitizer_cov_trace_pc
__sanitizer_cov_trace_pc:
    inc qword ptr fs:[vv_steps_count@tpoff]
    ret
    .globl vv_steps_get
vv_steps_get:
    mov rax, qword ptr fs:[vv_steps_count@tpoff]
    ret
"#
);

#[cfg(feature = "steps")]
extern "C" {
    fn vv_steps_get() -> u64;
}
#[cfg(feature = "steps")]
fn now() -> u64 {
    unsafe { vv_steps_get() }
}
#[cfg(not(feature = "steps"))]
fn now() -> u64 {
    0
}

/// basic blocks executed by `f`
#[inline(never)]
pub fn steps<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let a = now();
    let r = std::hint::black_box(f());
    (r, now() - a)
}

/// The count must react to work, or the check measures nothing.
pub fn alive() -> bool {
    let v = std::hint::black_box(vec![3u64; 4096]);
    let (s, n) = steps(|| {
        let mut s = 0u64;
        for &x in &v {
            s = std::hint::black_box(s.wrapping_mul(31).wrapping_add(x));
        }
        s
    });
    std::hint::black_box(s);
    n >= 4096
}
