/// splitmix64: the only source of randomness in the engine (witness search), seeded by VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
/// rand adapter with no information content: samplers for `E` return fresh terms.
pub struct NullRng { pub calls: u64 }
impl rand::RngCore for NullRng {
    fn next_u32(&mut self) -> u32 { self.calls += 1; 0 }
    fn next_u64(&mut self) -> u64 { self.calls += 1; 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.calls += 1; for b in d { *b = 0; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// scripted stream for primitive samplers
pub struct SeqRng { pub vals: Vec<u64>, pub pos: usize }
impl rand::RngCore for SeqRng {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { let v = self.vals[self.pos % self.vals.len()]; self.pos += 1; v }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
