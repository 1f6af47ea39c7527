//! The single source of choice: a seeded generator whose every draw is recorded on a tape.
//! Replay feeds the tape back (value modulo the range asked for, 0 once exhausted).

pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub enum Source { Seed(Rng), Replay(Vec<u64>) }

/// `sink`: every draw is also written here at once, so that a run that ends the process leaves its tape.
pub struct Tape { src: Source, pos: usize, pub rec: Vec<u64>, pub sink: Option<std::fs::File> }

impl Tape {
    pub fn seeded(seed: u64) -> Tape { Tape { src: Source::Seed(Rng::new(seed)), pos: 0, rec: Vec::with_capacity(256), sink: None } }
    pub fn replay(t: Vec<u64>) -> Tape { Tape { src: Source::Replay(t), pos: 0, rec: Vec::with_capacity(256), sink: None } }
    // Multiply-shift keeps ranges unbiased enough and independent of low bits.
    pub fn draw(&mut self, n: u64) -> u64 { self.draw_via(n, |x| ((x as u128 * n as u128) >> 64) as u64) }
    /// A value below `n` which `f` makes of a random one; the tape holds the value, so a replay needs no `f`.
    pub fn draw_via(&mut self, n: u64, f: impl FnOnce(u64) -> u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.src {
            Source::Seed(ref mut r) => f(r.next()) % n,
            Source::Replay(ref t) => {
                let v = if self.pos < t.len() { t[self.pos] } else { 0 };
                v % n
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.sink { use std::io::Write; let _ = f.write_all(format!("{} ", v).as_bytes()); }
        v
    }
}
