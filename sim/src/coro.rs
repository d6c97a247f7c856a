//! Stackful coroutines on ucontext. One OS thread runs a whole simulated world; the scheduler
//! alone decides which coroutine continues.
use std::cell::Cell;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

const STACK: usize = 1 << 20;

thread_local! {
    static CURRENT: Cell<*mut Inner> = const { Cell::new(std::ptr::null_mut()) };
    static POOL: std::cell::RefCell<Vec<*mut libc::c_void>> = const { std::cell::RefCell::new(Vec::new()) };
}

struct Inner {
    ctx: Box<MaybeUninit<libc::ucontext_t>>,
    back: Box<MaybeUninit<libc::ucontext_t>>,
    body: Option<Box<dyn FnOnce()>>,
    stack: *mut libc::c_void,
    done: bool,
    escaped: bool,
}

pub struct Coro {
    inner: Box<Inner>,
}

fn take_stack() -> *mut libc::c_void {
    POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            STACK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED, "cannot map a coroutine stack");
        // guard page at the low end
        libc::mprotect(m, 4096, libc::PROT_NONE);
        m
    })
}

extern "C" fn entry() {
    let me = CURRENT.with(Cell::get);
    unsafe {
        let body = (*me).body.take().unwrap();
        if catch_unwind(AssertUnwindSafe(body)).is_err() {
            (*me).escaped = true;
        }
        (*me).done = true;
        libc::swapcontext((*me).ctx.as_mut_ptr(), (*me).back.as_ptr());
    }
    std::process::abort();
}

impl Coro {
    pub fn new(body: Box<dyn FnOnce()>) -> Self {
        let mut inner = Box::new(Inner {
            ctx: Box::new(MaybeUninit::zeroed()),
            back: Box::new(MaybeUninit::zeroed()),
            body: Some(body),
            stack: take_stack(),
            done: false,
            escaped: false,
        });
        unsafe {
            let c = inner.ctx.as_mut_ptr();
            assert_eq!(libc::getcontext(c), 0);
            (*c).uc_stack.ss_sp = inner.stack;
            (*c).uc_stack.ss_size = STACK;
            (*c).uc_link = std::ptr::null_mut();
            libc::makecontext(c, entry, 0);
        }
        Coro { inner }
    }

    /// Runs the coroutine until it suspends or ends. Returns true when it has ended.
    pub fn resume(&mut self) -> bool {
        assert!(!self.inner.done);
        let me: *mut Inner = &mut *self.inner;
        let prev = CURRENT.with(|c| c.replace(me));
        unsafe {
            libc::swapcontext((*me).back.as_mut_ptr(), (*me).ctx.as_ptr());
        }
        CURRENT.with(|c| c.set(prev));
        self.inner.done
    }

    /// A panic got out of the body: an error of the harness, not a finding.
    pub fn escaped(&self) -> bool {
        self.inner.escaped
    }
}

impl Drop for Coro {
    fn drop(&mut self) {
        // A coroutine that has not ended still has live frames on its stack: leak the stack.
        if self.inner.done || self.inner.body.is_some() {
            let s = self.inner.stack;
            POOL.with(|p| p.borrow_mut().push(s));
        }
    }
}

/// Gives control back to the scheduler. Must be called inside a coroutine.
pub fn suspend() {
    let me = CURRENT.with(Cell::get);
    assert!(!me.is_null());
    unsafe {
        libc::swapcontext((*me).ctx.as_mut_ptr(), (*me).back.as_ptr());
    }
}

pub fn inside() -> bool {
    CURRENT.with(|c| !c.get().is_null())
}
