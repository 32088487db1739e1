// Stand-in for the `crc` crate.  BYTES off: the checksum is the number of bytes fed to it (so that
// symbolic contents do not make it symbolic); BYTES on: every byte matters and, as with CRC-64,
// a change confined to one byte always changes the result.
pub static mut BYTES: bool = false;
pub struct Algo;
pub const CRC_64_XZ: Algo = Algo;
pub struct Crc<W> { _w: core::marker::PhantomData<W> }
#[derive(Clone)]
pub struct Digest<'a, W> { v: u64, _p: core::marker::PhantomData<&'a W> }
impl Crc<u64> {
    pub const fn new(_: &Algo) -> Self { Self { _w: core::marker::PhantomData } }
    pub const fn digest(&self) -> Digest<'static, u64> { Digest { v: 0x5A, _p: core::marker::PhantomData } }
}
impl<'a> Digest<'a, u64> {
    pub fn update(&mut self, b: &[u8]) {
        if unsafe { BYTES } {
            let mut i = 0;
            while i < b.len() { self.v = self.v.rotate_left(8) ^ b[i] as u64; i += 1; }
        } else { self.v += b.len() as u64; }
    }
    pub fn finalize(self) -> u64 { self.v.wrapping_sub(0x5A) }
}
