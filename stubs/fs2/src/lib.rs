//! Signature-only stand-in for the `fs2` crate (not available offline): never executed.
use std::{fs::File, io::Result};
pub trait FileExt {
  fn lock_shared(&self) -> Result<()>;
  fn lock_exclusive(&self) -> Result<()>;
  fn try_lock_shared(&self) -> Result<()>;
  fn try_lock_exclusive(&self) -> Result<()>;
  fn unlock(&self) -> Result<()>;
}
impl FileExt for File {
  fn lock_shared(&self) -> Result<()> { loop {} }
  fn lock_exclusive(&self) -> Result<()> { loop {} }
  fn try_lock_shared(&self) -> Result<()> { loop {} }
  fn try_lock_exclusive(&self) -> Result<()> { loop {} }
  fn unlock(&self) -> Result<()> { loop {} }
}
