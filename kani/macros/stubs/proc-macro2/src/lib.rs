//! A token stream that only remembers the integers put into it, in order.
#[derive(Clone, Default, Debug)]
pub struct TokenStream {
    limbs: [u64; 8],
    len: usize,
}
impl TokenStream {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn push(&mut self, x: u64) {
        self.limbs[self.len] = x;
        self.len += 1;
    }
    pub fn limbs(&self) -> &[u64] {
        &self.limbs[..self.len]
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Span;
impl Span {
    pub fn call_site() -> Self {
        Span
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Literal(pub u64);
impl Literal {
    pub fn u64_suffixed(x: u64) -> Self {
        Literal(x)
    }
    pub fn u64_unsuffixed(x: u64) -> Self {
        Literal(x)
    }
}
