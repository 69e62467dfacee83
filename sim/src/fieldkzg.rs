//! A commitment backend with the algebra of KZG but over the field itself: a
//! commitment is p(tau) + gamma b(tau). Same call protocol, errors, hiding and
//! degree limits as the real backend at a fraction of the cost, so that many
//! more histories can be run. It is a stub: the secret tau is in the keys.
use crate::{F, Poly};
use ark_ff::{Field, ToBytes, UniformRand, Zero};
use ark_poly::{Polynomial, UVPolynomial};
use ark_poly_commit::{
    kzg10::Randomness, Error, LabeledCommitment, LabeledPolynomial,
    PCCommitment, PCCommitterKey, PCPreparedCommitment, PCPreparedVerifierKey,
    PCProof, PCRandomness, PCUniversalParams, PCVerifierKey,
    PolynomialCommitment,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Read, SerializationError, Write,
};
use ark_std::rand::RngCore;
use zero_over_k::commitment::HomomorphicCommitment;

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Params {
    pub max_degree: u64,
    pub supported: u64,
    pub tau: F,
    pub gamma: F,
}
impl PCUniversalParams for Params {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCCommitterKey for Params {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.supported as usize
    }
}
impl PCVerifierKey for Params {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.supported as usize
    }
}
impl PCPreparedVerifierKey<Params> for Params {
    fn prepare(vk: &Params) -> Self {
        vk.clone()
    }
}

#[derive(
    Clone, Copy, Debug, Default, PartialEq, CanonicalSerialize, CanonicalDeserialize,
)]
pub struct Comm(pub F);
impl ToBytes for Comm {
    fn write<W: Write>(&self, w: W) -> ark_std::io::Result<()> {
        self.0.write(w)
    }
}
impl PCCommitment for Comm {
    fn empty() -> Self {
        Comm(F::zero())
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        32
    }
}
impl PCPreparedCommitment<Comm> for Comm {
    fn prepare(c: &Comm) -> Self {
        *c
    }
}

#[derive(Clone, Debug, Default, PartialEq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Opening {
    pub w: F,
    pub random_v: Option<F>,
}
impl ToBytes for Opening {
    fn write<W: Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        self.w.write(&mut w)?;
        self.random_v.unwrap_or_else(F::zero).write(&mut w)
    }
}
impl PCProof for Opening {
    fn size_in_bytes(&self) -> usize {
        64
    }
}

pub struct FieldKzg;

fn div_by_linear(p: &Poly, z: F) -> Poly {
    // (p - p(z)) / (X - z) by synthetic division.
    if p.coeffs.len() <= 1 {
        return Poly::from_coefficients_vec(vec![]);
    }
    let n = p.coeffs.len();
    let mut q = vec![F::zero(); n - 1];
    let mut acc = F::zero();
    for i in (1..n).rev() {
        acc = p.coeffs[i] + acc * z;
        q[i - 1] = acc;
    }
    Poly::from_coefficients_vec(q)
}

impl PolynomialCommitment<F, Poly> for FieldKzg {
    type UniversalParams = Params;
    type CommitterKey = Params;
    type VerifierKey = Params;
    type PreparedVerifierKey = Params;
    type Commitment = Comm;
    type PreparedCommitment = Comm;
    type Randomness = Randomness<F, Poly>;
    type Proof = Opening;
    type BatchProof = Vec<Opening>;
    type Error = Error;

    fn setup<R: RngCore>(
        max_degree: usize,
        _: Option<usize>,
        rng: &mut R,
    ) -> Result<Params, Error> {
        if max_degree < 1 {
            return Err(Error::DegreeIsZero);
        }
        Ok(Params {
            max_degree: max_degree as u64,
            supported: max_degree as u64,
            tau: F::rand(rng),
            gamma: F::rand(rng),
        })
    }

    fn trim(
        pp: &Params,
        supported_degree: usize,
        _: usize,
        _: Option<&[usize]>,
    ) -> Result<(Params, Params), Error> {
        if supported_degree > pp.max_degree as usize {
            return Err(Error::TrimmingDegreeTooLarge);
        }
        let mut k = pp.clone();
        k.supported = supported_degree as u64;
        Ok((k.clone(), k))
    }

    fn commit<'a>(
        ck: &Params,
        polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, Poly>>,
        mut rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Comm>>, Vec<Randomness<F, Poly>>), Error>
    where
        Poly: 'a,
    {
        let (mut cs, mut rs) = (vec![], vec![]);
        for p in polynomials {
            if p.polynomial().coeffs.len() > ck.supported as usize + 1 {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: p.polynomial().coeffs.len(),
                    num_powers: ck.supported as usize + 1,
                });
            }
            let mut r: Randomness<F, Poly> = Randomness::empty();
            if let Some(h) = p.hiding_bound() {
                match &mut rng {
                    Some(g) => {
                        r = Randomness::rand(h, false, None, g);
                        if r.blinding_polynomial.is_zero() {
                            return Err(Error::HidingBoundIsZero);
                        }
                    }
                    None => return Err(Error::MissingRng),
                }
            }
            let c = p.polynomial().evaluate(&ck.tau)
                + ck.gamma * r.blinding_polynomial.evaluate(&ck.tau);
            cs.push(LabeledCommitment::new(p.label().clone(), Comm(c), None));
            rs.push(r);
        }
        Ok((cs, rs))
    }

    fn open_individual_opening_challenges<'a>(
        ck: &Params,
        labeled_polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, Poly>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        point: &'a F,
        opening_challenges: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a Randomness<F, Poly>>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<Opening, Error>
    where
        Poly: 'a,
        Randomness<F, Poly>: 'a,
        Comm: 'a,
    {
        let mut p = Poly::from_coefficients_vec(vec![]);
        let mut b = Poly::from_coefficients_vec(vec![]);
        for (i, (lp, r)) in labeled_polynomials.into_iter().zip(rands).enumerate() {
            if lp.polynomial().coeffs.len() > ck.supported as usize + 1 {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: lp.polynomial().coeffs.len(),
                    num_powers: ck.supported as usize + 1,
                });
            }
            let ch = opening_challenges(i as u64);
            p += (ch, lp.polynomial());
            b += (ch, &r.blinding_polynomial);
        }
        let w = div_by_linear(&p, *point).evaluate(&ck.tau)
            + ck.gamma * div_by_linear(&b, *point).evaluate(&ck.tau);
        let random_v = if b.is_zero() {
            None
        } else {
            Some(b.evaluate(point))
        };
        Ok(Opening { w, random_v })
    }

    fn check_individual_opening_challenges<'a>(
        vk: &Params,
        commitments: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &Opening,
        opening_challenges: &dyn Fn(u64) -> F,
        _: Option<&mut dyn RngCore>,
    ) -> Result<bool, Error>
    where
        Comm: 'a,
    {
        let mut c = F::zero();
        let mut v = F::zero();
        for (i, (cm, val)) in commitments.into_iter().zip(values).enumerate() {
            let ch = opening_challenges(i as u64);
            c += ch * cm.commitment().0;
            v += ch * val;
        }
        let rv = proof.random_v.unwrap_or_else(F::zero);
        Ok(c - v - vk.gamma * rv == proof.w * (vk.tau - point))
    }

    fn batch_check_individual_opening_challenges<'a, R: RngCore>(
        _: &Params,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &ark_poly_commit::QuerySet<F>,
        _: &ark_poly_commit::Evaluations<F, F>,
        _: &Vec<Opening>,
        _: &dyn Fn(u64) -> F,
        _: &mut R,
    ) -> Result<bool, Error>
    where
        Comm: 'a,
    {
        unimplemented!("the library does not use batch checks")
    }
}

impl HomomorphicCommitment<F> for FieldKzg {
    fn msm(c: &[Comm], s: &[F]) -> Comm {
        Comm(c.iter().zip(s).map(|(a, b)| a.0 * b).sum())
    }
    fn neg_com(c: &Comm) -> Comm {
        Comm(-c.0)
    }
    fn scale_com(c: &Comm, s: F) -> Comm {
        Comm(c.0 * s)
    }
    fn add(a: &Comm, b: &Comm) -> Comm {
        Comm(a.0 + b.0)
    }
    fn zero_comm() -> Comm {
        Comm(F::zero())
    }
    fn is_zero(c: &Comm) -> bool {
        c.0.is_zero()
    }
    fn eq_cm(a: &Comm, b: &Comm) -> bool {
        a.0 == b.0
    }
    fn scale_rand(r: &Randomness<F, Poly>, s: F) -> Randomness<F, Poly> {
        let mut x: Randomness<F, Poly> = Randomness::empty();
        x.blinding_polynomial = &r.blinding_polynomial * s;
        x
    }
    fn add_rands(
        a: &Randomness<F, Poly>,
        b: &Randomness<F, Poly>,
    ) -> Randomness<F, Poly> {
        a.clone() + b
    }
    fn add_assign_rand(a: &mut Randomness<F, Poly>, b: &Randomness<F, Poly>) {
        a.blinding_polynomial += &b.blinding_polynomial
    }
}

#[allow(dead_code)]
fn _f(x: F) -> F {
    x.square()
}
