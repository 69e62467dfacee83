//! Roots in the field of a univariate polynomial given by its values.
use crate::prng::{f, inv, Prng};
use crate::F;
use ark_ff::{FpParameters, One, PrimeField, Zero};

type P = Vec<F>; // coefficients, lowest first, no zero on top

fn trim(mut a: P) -> P {
    while a.last().map_or(false, |v| v.is_zero()) {
        a.pop();
    }
    a
}

fn mul(a: &P, b: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    trim(r)
}

fn rem(a: &P, m: &P) -> P {
    let mut a = a.clone();
    let li = inv(*m.last().unwrap());
    while a.len() >= m.len() {
        let q = *a.last().unwrap() * li;
        let off = a.len() - m.len();
        for (i, v) in m.iter().enumerate() {
            a[off + i] -= q * v;
        }
        a.pop();
        a = trim(a);
    }
    a
}

fn gcd(a: &P, b: &P) -> P {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let r = rem(&a, &b);
        a = b;
        b = r;
    }
    a
}

fn pow(base: &P, e: &[u64], m: &P) -> P {
    let mut r = vec![F::one()];
    for w in e.iter().rev() {
        for k in (0..64).rev() {
            r = rem(&mul(&r, &r), m);
            if (w >> k) & 1 == 1 {
                r = rem(&mul(&r, base), m);
            }
        }
    }
    r
}

fn minus_one(a: P) -> P {
    let mut a = if a.is_empty() { vec![F::zero()] } else { a };
    a[0] -= F::one();
    trim(a)
}

/// The polynomial of degree at most `deg` with these values, if it is one.
fn interpolate(g: &dyn Fn(F) -> F, deg: usize) -> Option<P> {
    let mut vals: Vec<F> = vec![g(f(1))];
    // Newton's form, stopping early
    let mut coef: Vec<F> = vec![];
    let mut diffs: Vec<F> = vec![];
    let xs: Vec<F> = (1..=deg as u64 + 3).map(f).collect();
    let mut zeros = 0;
    for k in 0..xs.len() {
        if k > 0 {
            vals.push(g(xs[k]));
        }
        let mut d = vals[k];
        for (j, prev) in diffs.iter_mut().enumerate() {
            let t = (d - *prev) * inv(xs[k] - xs[k - 1 - j]);
            *prev = d;
            d = t;
        }
        diffs.push(d);
        coef.push(d);
        zeros = if d.is_zero() { zeros + 1 } else { 0 };
        if zeros == 2 {
            break;
        }
    }
    if zeros < 2 {
        return None;
    }
    let mut p: P = vec![];
    let mut basis: P = vec![F::one()];
    for (k, c) in coef.iter().enumerate() {
        if p.len() < basis.len() {
            p.resize(basis.len(), F::zero());
        }
        for (i, b) in basis.iter().enumerate() {
            p[i] += *c * b;
        }
        basis = mul(&basis, &vec![-xs[k], F::one()]);
    }
    Some(trim(p))
}

/// A root other than zero of a polynomial function of degree at most 24.
pub fn root(g: &dyn Fn(F) -> F) -> Option<F> {
    let mut p = interpolate(g, 24)?;
    if p.is_empty() {
        return Some(F::one());
    }
    while p[0].is_zero() {
        p.remove(0);
    }
    if p.len() < 2 {
        return None;
    }
    if p.len() == 2 {
        return Some(-p[0] * inv(p[1]));
    }
    // product of the distinct linear factors
    let x = vec![F::zero(), F::one()];
    let mut xp = pow(&x, <F as PrimeField>::Params::MODULUS.as_ref(), &p);
    xp.resize(xp.len().max(2), F::zero());
    xp[1] -= F::one();
    let mut h = gcd(&p, &trim(xp));
    let half = <F as PrimeField>::Params::MODULUS_MINUS_ONE_DIV_TWO;
    let mut rng = Prng::derive(0, "roots");
    for _ in 0..64 {
        if h.len() < 2 {
            return None;
        }
        if h.len() == 2 {
            let r = -h[0] * inv(h[1]);
            return g(r).is_zero().then_some(r);
        }
        let s = vec![rng.field(), F::one()];
        let q = minus_one(pow(&s, half.as_ref(), &h));
        let d = gcd(&h, &q);
        if d.len() > 1 && d.len() < h.len() {
            h = d;
        }
    }
    None
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn finds() {
        let g = |x: F| (x - f(77)) * (x - f(78)) * (x * x * x + x + f(5)) * x;
        let r = root(&g).unwrap();
        assert!(g(r).is_zero() && !r.is_zero());
        assert!(root(&|_| f(3)).is_none());
        assert_eq!(root(&|x| f(3) - x), Some(f(3)));
    }
}
