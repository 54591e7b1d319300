//! Host stand-in for the parts of ckb-std the on-chain verifier uses: witnesses come from a
//! thread-local store instead of the CKB syscall. The contract of the syscalls is that of
//! ckb-std: a missing index is an error, and a witness longer than the buffer is an error.
use std::cell::RefCell;

thread_local! {
    static WITNESSES: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
    static LOADS: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
}

pub fn set_witnesses(w: Vec<Vec<u8>>) {
    WITNESSES.with(|x| *x.borrow_mut() = w);
    LOADS.with(|x| x.borrow_mut().clear());
}

/// (index, buffer length) of every witness load since `set_witnesses`
pub fn loads() -> Vec<(usize, usize)> {
    LOADS.with(|x| x.borrow().clone())
}

pub mod error {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}

pub mod ckb_constants {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Source {
        Input,
        Output,
        CellDep,
        HeaderDep,
        GroupInput,
        GroupOutput,
    }
}

pub mod syscalls {
    use super::ckb_constants::Source;
    pub use super::error::SysError;
    pub fn debug(_s: String) {}
    pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, source: Source) -> Result<usize, SysError> {
        super::LOADS.with(|x| x.borrow_mut().push((index, buf.len())));
        if source != Source::Input && source != Source::GroupInput {
            return Err(SysError::IndexOutOfBound);
        }
        super::WITNESSES.with(|w| {
            let w = w.borrow();
            let Some(w) = w.get(index) else { return Err(SysError::IndexOutOfBound) };
            let d = if offset > w.len() { &[][..] } else { &w[offset..] };
            let n = d.len().min(buf.len());
            buf[..n].copy_from_slice(&d[..n]);
            if d.len() > buf.len() {
                return Err(SysError::LengthNotEnough(d.len()));
            }
            Ok(d.len())
        })
    }
    pub fn exit(code: i8) -> ! {
        panic!("exit {}", code)
    }
}

#[macro_export]
macro_rules! entry {
    ($f:path) => {};
}
#[macro_export]
macro_rules! default_alloc {
    () => {
        extern crate alloc;
    };
    ($($x:tt)*) => {
        extern crate alloc;
    };
}
