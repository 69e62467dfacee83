//! The one source of every choice the simulator makes.
use crate::F;
use ark_ff::{Field, One, PrimeField, Zero};

#[derive(Clone, Debug)]
pub struct Prng {
    s: u64,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng {
            s: mix(seed ^ 0x5851f42d4c957f2d),
        }
    }
    pub fn derive(seed: u64, tag: &str) -> Self {
        let mut h = 0xcbf29ce484222325u64;
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Prng::new(mix(seed).wrapping_add(h))
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A uniformly random field element.
    pub fn field(&mut self) -> F {
        let mut b = [0u8; 64];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        F::from_le_bytes_mod_order(&b)
    }
    /// A field element mixing edge cases, small and uniform values.
    pub fn value(&mut self) -> F {
        match self.below(10) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 | 4 | 5 => F::from(self.below(8) as u64),
            _ => self.field(),
        }
    }
    pub fn nonzero(&mut self) -> F {
        loop {
            let v = self.value();
            if !v.is_zero() {
                return v;
            }
        }
    }
}

pub fn f(v: u64) -> F {
    F::from(v)
}

pub fn inv(x: F) -> F {
    x.inverse().unwrap_or_else(F::zero)
}
