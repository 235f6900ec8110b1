//! Every server thread is created by the real pthread_create (so that it has
//! its own stack and thread-local storage) but then parks its kernel thread
//! for good; its context is run as a fiber by the one kernel thread of the
//! simulation, which switches stack and thread pointer.
use std::arch::naked_asm;

#[repr(C)]
#[derive(Default)]
pub struct Ctx {
    pub rsp: u64,
    pub fs: u64,
    pub ready: u32,
}

/// Save the current context in `save` and continue in `load`.
#[unsafe(naked)]
pub unsafe extern "C" fn switch(_save: *mut Ctx, _load: *const Ctx) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "rdfsbase rax", "mov [rdi+8], rax",
        "mov rsp, [rsi]",
        "mov rax, [rsi+8]", "wrfsbase rax",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret"
    )
}

/// Called on a fresh kernel thread: publish its context, then park the kernel
/// thread without ever touching its stack again.
#[unsafe(naked)]
pub unsafe extern "C" fn publish_and_park(_save: *mut Ctx) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "rdfsbase rax", "mov [rdi+8], rax",
        "mov dword ptr [rdi+16], 1",
        // futex wake
        "lea rdi, [rdi+16]", "mov esi, 129", "mov edx, 1", "xor r10d, r10d",
        "mov eax, 202", "syscall",
        "2:", "mov eax, 34", "syscall", "jmp 2b",
    )
}

pub fn supported() -> bool {
    unsafe { libc::getauxval(26) & 2 != 0 }
}
