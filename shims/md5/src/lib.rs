//! Stand-in used only under the verifier. Assumed contract of a digest: it depends on the
//! consumed bytes only (not on how they were split), and differs for different inputs -
//! here literally so for inputs of at most 15 bytes.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Digest(pub [u8; 16]);
impl std::ops::Deref for Digest { type Target = [u8; 16]; fn deref(&self) -> &[u8; 16] { &self.0 } }
impl From<Digest> for [u8; 16] { fn from(d: Digest) -> Self { d.0 } }
impl std::fmt::LowerHex for Digest { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
#[derive(Clone)]
pub struct Context { d: [u8; 16] }
impl Context {
    pub fn new() -> Self { Context { d: [0; 16] } }
    pub fn consume<T: AsRef<[u8]>>(&mut self, data: T) {
        let s = data.as_ref();
        let n = self.d[15] as usize;
        let mut i = 0;
        while i < s.len() {
            if n + i < 15 { self.d[n + i] = s[i]; }
            i += 1;
        }
        self.d[15] = (n + s.len()) as u8;
    }
    pub fn finalize(self) -> Digest { Digest(self.d) }
}
pub fn compute<T: AsRef<[u8]>>(data: T) -> Digest { let mut c = Context::new(); c.consume(data); c.finalize() }
