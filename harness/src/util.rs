//! Small utilities: PRNG, hashing, hex.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// True once in n.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A value biased to boundaries.
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 0x7fff_ffff,
            4 => 0x8000_0000,
            5 => self.u16() as u32,
            6 => self.u8() as u32,
            7 => 1 << self.below(32),
            _ => self.u32(),
        }
    }
    pub fn edge_u16(&mut self) -> u16 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u16::MAX,
            3 => 0x7fff,
            4 => 0x8000,
            5 => 1 << self.below(16),
            _ => self.u16(),
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(29) ^ 0x5851F42D4C957F2D;
    splitmix(&mut x)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// Shortened hex for messages.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 600 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..600]), b.len())
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}..({} bytes)", &s[..e], s.len())
}

thread_local! {
    static JITTER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// From now on `jitter` delays this thread at random (0: no more).
pub fn set_jitter(seed: u64) {
    JITTER.with(|j| j.set(seed));
}

/// A random delay, to be called where another thread should get a chance.
pub fn jitter() {
    let s = match JITTER.try_with(|j| j.get()) {
        Ok(s) if s != 0 => s,
        _ => return,
    };
    let s = mix(s, 0x9e37) | 1;
    let _ = JITTER.try_with(|j| j.set(s));
    match (s >> 8) % 16 {
        0..=8 => {}
        9..=11 => unsafe {
            libc::syscall(libc::SYS_sched_yield);
        },
        12..=14 => {
            for _ in 0..(s >> 16) % 2000 {
                std::hint::spin_loop();
            }
        }
        _ => {
            let t = libc::timespec { tv_sec: 0, tv_nsec: ((s >> 16) % 30_000) as i64 };
            unsafe {
                libc::syscall(libc::SYS_nanosleep, &t as *const _, std::ptr::null::<libc::timespec>());
            }
        }
    }
}
