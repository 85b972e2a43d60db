//! Stand-in for the `fs2` crate (not available offline): the flock(2) calls of its FileExt trait.
use std::fs::File;
use std::io::{Error, Result};
use std::os::unix::io::AsRawFd;

pub trait FileExt {
  fn lock_shared(&self) -> Result<()>;
  fn lock_exclusive(&self) -> Result<()>;
  fn try_lock_shared(&self) -> Result<()>;
  fn try_lock_exclusive(&self) -> Result<()>;
  fn unlock(&self) -> Result<()>;
}

fn flock(f: &File, op: libc::c_int) -> Result<()> {
  if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 { Err(Error::last_os_error()) } else { Ok(()) }
}

impl FileExt for File {
  fn lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH) }
  fn lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX) }
  fn try_lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH | libc::LOCK_NB) }
  fn try_lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
  fn unlock(&self) -> Result<()> { flock(self, libc::LOCK_UN) }
}

pub fn lock_contended_error() -> Error { Error::from_raw_os_error(libc::EWOULDBLOCK) }
