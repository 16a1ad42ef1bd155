/// Bit patterns in and out of the values passed to the routines.
pub trait Bits: Copy {
    fn from(x: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! bits_float { ($($t:ty, $u:ty;)*) => { $(impl Bits for $t {
    #[inline] fn from(x: u128) -> Self { <$t>::from_bits(x as $u) }
    #[inline] fn to(self) -> u128 { self.to_bits() as u128 }
})* } }
bits_float! { f16, u16; f32, u32; f64, u64; f128, u128; }
macro_rules! bits_int { ($($t:ty, $u:ty;)*) => { $(impl Bits for $t {
    #[inline] fn from(x: u128) -> Self { x as $t }
    #[inline] fn to(self) -> u128 { self as $u as u128 }
})* } }
bits_int! { u32, u32; u64, u64; u128, u128; i32, u32; i64, u64; i128, u128; }

