//! Stand-in for `wizer` (not available offline). The compiler treats pre-initialisation as an optional optimisation: when
//! it fails, the module keeps its `_start` export and the host runs it. This stand-in always takes that path.
pub struct Wizer;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("pre-initialisation is not available") }
}
impl Wizer {
    pub fn new() -> Self { Wizer }
    pub fn init_func(&mut self, _: &str) -> &mut Self { self }
    pub fn allow_wasi(&mut self, _: bool) -> Result<&mut Self, Error> { Ok(self) }
    pub fn run(&self, _: &[u8]) -> Result<Vec<u8>, Error> { Err(Error) }
}
impl Default for Wizer { fn default() -> Self { Self::new() } }
