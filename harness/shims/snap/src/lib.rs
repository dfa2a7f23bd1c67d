//! Stand-in for snap: the raw snappy format. The encoder only writes literals (and copies of long runs), the decoder reads all of it.
pub mod raw {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Error(&'static str);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for Error {}
    type Result<T> = std::result::Result<T, Error>;
    fn varint(b: &[u8]) -> Result<(u64, usize)> {
        let (mut v, mut s) = (0u64, 0);
        for (i, x) in b.iter().enumerate().take(5) {
            v |= ((x & 0x7f) as u64) << s;
            if x & 0x80 == 0 { return Ok((v, i + 1)); }
            s += 7;
        }
        Err(Error("header"))
    }
    pub fn decompress_len(b: &[u8]) -> Result<usize> {
        if b.is_empty() { return Ok(0); }
        let (n, _) = varint(b)?;
        if n > u32::MAX as u64 { return Err(Error("too big")); }
        Ok(n as usize)
    }
    #[derive(Default)]
    pub struct Encoder;
    impl Encoder {
        pub fn new() -> Self { Encoder }
        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
            let mut out = vec![];
            let mut n = input.len() as u64;
            while n >= 0x80 { out.push(n as u8 | 0x80); n >>= 7; }
            out.push(n as u8);
            let mut i = 0;
            let mut lit = 0;
            let flush = |out: &mut Vec<u8>, s: &[u8]| {
                for c in s.chunks(60_000) {
                    let l = c.len() - 1;
                    if l < 60 { out.push((l as u8) << 2) } else { out.push(61 << 2); out.extend_from_slice(&(l as u16).to_le_bytes()) }
                    out.extend_from_slice(c);
                }
            };
            while i < input.len() {
                let mut run = 1;
                while run < 65 && i + run < input.len() && input[i + run] == input[i] { run += 1 }
                if run >= 8 {
                    flush(&mut out, &input[lit..i + 1]);
                    out.push((((run - 2) as u8) << 2) | 2);
                    out.extend_from_slice(&1u16.to_le_bytes());
                    i += run;
                    lit = i;
                } else { i += 1 }
            }
            flush(&mut out, &input[lit..]);
            Ok(out)
        }
    }
    #[derive(Default)]
    pub struct Decoder;
    impl Decoder {
        pub fn new() -> Self { Decoder }
        pub fn decompress(&mut self, b: &[u8], out: &mut [u8]) -> Result<usize> {
            if b.is_empty() { return Err(Error("empty")); }
            let (n, mut i) = varint(b)?;
            let n = n as usize;
            if n > out.len() { return Err(Error("buffer")); }
            let mut o = 0;
            while i < b.len() {
                let t = b[i];
                i += 1;
                let take = |i: &mut usize, k: usize| -> Result<usize> {
                    if *i + k > b.len() { return Err(Error("short")); }
                    let mut v = 0usize;
                    for j in 0..k { v |= (b[*i + j] as usize) << (8 * j); }
                    *i += k;
                    Ok(v)
                };
                let (len, off) = match t & 3 {
                    0 => {
                        let mut l = (t >> 2) as usize;
                        if l >= 60 { l = take(&mut i, l - 59)? }
                        let l = l + 1;
                        if i + l > b.len() || o + l > n { return Err(Error("literal")); }
                        out[o..o + l].copy_from_slice(&b[i..i + l]);
                        i += l;
                        o += l;
                        continue;
                    }
                    1 => ((((t >> 2) & 7) + 4) as usize, (((t >> 5) as usize) << 8) | take(&mut i, 1)?),
                    2 => ((t >> 2) as usize + 1, take(&mut i, 2)?),
                    _ => ((t >> 2) as usize + 1, take(&mut i, 4)?),
                };
                if off == 0 || off > o || o + len > n { return Err(Error("copy")); }
                for _ in 0..len { out[o] = out[o - off]; o += 1 }
            }
            if o != n { return Err(Error("length")); }
            Ok(n)
        }
    }
}
