//! Verification stand-in for `backtrace`: it is only used to decorate log messages.
#[derive(Debug, Clone, Default)]
pub struct Backtrace;
impl Backtrace {
  pub fn new() -> Self { Backtrace }
  pub fn new_unresolved() -> Self { Backtrace }
}
