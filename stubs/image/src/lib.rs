//! stand-in: an "image" is the text it encodes
pub struct Luma<T>(pub [T; 1]);
pub enum ImageFormat { Png }
pub struct Buf(pub Vec<u8>);
impl Buf {
    pub fn write_to<W: std::io::Write>(&self, w: &mut W, _: ImageFormat) -> std::io::Result<()> { w.write_all(&self.0) }
}
