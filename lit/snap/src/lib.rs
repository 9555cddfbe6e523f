//! Stand-in for the snap crate's raw interface: output is valid snappy made of literals only.
pub mod raw {
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("snappy")
        }
    }
    impl std::error::Error for Error {}
    pub fn max_compress_len(n: usize) -> usize {
        if n > u32::MAX as usize {
            return 0;
        }
        32 + n + n / 6
    }
    #[derive(Debug, Default, Clone)]
    pub struct Encoder;
    impl Encoder {
        pub fn new() -> Encoder {
            Encoder
        }
        pub fn compress(&mut self, input: &[u8], output: &mut [u8]) -> Result<usize> {
            let v = self.compress_vec(input)?;
            if output.len() < max_compress_len(input.len()) {
                return Err(Error);
            }
            output[..v.len()].copy_from_slice(&v);
            Ok(v.len())
        }
        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            let mut out = Vec::with_capacity(max_compress_len(input.len()));
            let mut n = input.len();
            while n >= 128 {
                out.push(n as u8 | 128);
                n >>= 7;
            }
            out.push(n as u8);
            for c in input.chunks(60) {
                out.push(((c.len() - 1) << 2) as u8);
                out.extend_from_slice(c);
            }
            Ok(out)
        }
    }
}
