//! stand-in: gzip framing with the data stored as is after a ten byte header
pub struct Compression;
impl Compression { pub fn default() -> Self { Self } pub fn best() -> Self { Self } pub fn fast() -> Self { Self } pub fn new(_: u32) -> Self { Self } }
pub const HEADER: [u8; 10] = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
pub mod write {
    pub struct GzEncoder<W>(W, Vec<u8>);
    impl<W: std::io::Write> GzEncoder<W> {
        pub fn new(w: W, _: super::Compression) -> Self { Self(w, Vec::new()) }
        pub fn finish(mut self) -> std::io::Result<W> { self.0.write_all(&super::HEADER)?; self.0.write_all(&self.1)?; Ok(self.0) }
    }
    impl<W: std::io::Write> std::io::Write for GzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
}
