//! Stand-in used only under the verifier. Assumed contract of zlib: decoding an encoded
//! stream yields the encoded bytes, and a stream that does not start with the zlib marker
//! is refused. The stored form is the marker byte followed by the bytes.
pub mod zlib {
    use std::io::{self, Read, Write};
    #[derive(Debug, Clone)]
    pub struct EncodeOptions(());
    impl EncodeOptions {
        pub fn new() -> Self { EncodeOptions(()) }
        pub fn block_size(self, _: usize) -> Self { self }
    }
    pub struct Encoder<W> { inner: W }
    pub struct Finish<W>(W);
    impl<W> Finish<W> { pub fn into_result(self) -> io::Result<W> { Ok(self.0) } }
    impl<W: Write> Encoder<W> {
        pub fn with_options(mut inner: W, _: EncodeOptions) -> io::Result<Self> { inner.write_all(&[0x78])?; Ok(Encoder { inner }) }
        pub fn finish(self) -> Finish<W> { Finish(self.inner) }
    }
    impl<W: Write> Write for Encoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.inner.write(b) }
        fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.inner.write_all(b) }
        fn flush(&mut self) -> io::Result<()> { Ok(()) }
    }
    pub struct Decoder<R> { inner: R }
    impl<R: Read> Decoder<R> {
        pub fn new(mut inner: R) -> io::Result<Self> {
            let mut m = [0u8; 1];
            inner.read_exact(&mut m)?;
            if m[0] != 0x78 { return Err(io::Error::from(io::ErrorKind::InvalidData)); }
            Ok(Decoder { inner })
        }
    }
    impl<R: Read> Read for Decoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.inner.read(b) }
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> io::Result<usize> { self.inner.read_to_end(v) }
    }
}
