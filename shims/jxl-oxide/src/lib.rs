//! Verification stand-in for `jxl-oxide`: no property here depends on the JPEG-XL codec,
//! so the calls only have to type-check. Reaching one is a failure of the harness.
#[derive(Debug)]
pub struct Error;
pub struct Builder;
impl Builder {
  pub fn read(self, _r: impl std::io::Read) -> Result<JxlImage, Error> { unimplemented!("jxl shim") }
}
pub struct BitDepth;
impl BitDepth { pub fn bits_per_sample(&self) -> u32 { unimplemented!("jxl shim") } }
pub struct FrameHeader { pub bit_depth: BitDepth }
pub struct Render;
pub struct ImageStream;
impl Render {
  pub fn stream_no_alpha(&self) -> ImageStream { unimplemented!("jxl shim") }
  pub fn stream(&self) -> ImageStream { unimplemented!("jxl shim") }
}
impl ImageStream {
  pub fn write_to_buffer<T>(&mut self, _buf: &mut [T]) -> usize { unimplemented!("jxl shim") }
}
pub struct JxlImage;
impl JxlImage {
  pub fn builder() -> Builder { Builder }
  pub fn frame_header(&self, _i: usize) -> Option<&FrameHeader> { unimplemented!("jxl shim") }
  pub fn render_frame(&self, _i: usize) -> Result<Render, Error> { unimplemented!("jxl shim") }
}
