//! stand-in: keeps the encoded text
pub struct QrCode(Vec<u8>);
pub struct Renderer(Vec<u8>);
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(d: D) -> Result<Self, std::io::Error> { Ok(Self(d.as_ref().to_vec())) }
    pub fn render<P>(&self) -> Renderer { Renderer(self.0.clone()) }
}
impl Renderer { pub fn build(&self) -> image::Buf { image::Buf(self.0.clone()) } }
