//! Parties that commit to polynomials and aggregators that fold what arrives,
//! over a channel that delays, reorders, repeats and drops, with crashes of
//! aggregators: the setting for the helper operations on commitments. All
//! commitments here are real KZG10 ones.
use crate::node::{keys, Backend};
use crate::prng::Prng;
use crate::seam::{session, Outcome, Plan, RngSpec, SimRng};
use crate::world::{Step, W};
use crate::{Kzg, Poly, F};
use ark_bls12_381::{G1Affine, G1Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::{Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PCRandomness, PolynomialCommitment};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::commitment::HomomorphicCommitment;

pub const DEG: usize = 8;

type Comm = <Kzg as PolynomialCommitment<F, Poly>>::Commitment;
type Rand = <Kzg as PolynomialCommitment<F, Poly>>::Randomness;
type H = Kzg;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Party {
    pub seed: u64,
    /// 0 random, 1 zero, 2 constant, 3 as party `of`, 4 minus party `of`
    pub kind: u8,
    pub of: usize,
    pub deg: usize,
    pub hide: bool,
    /// its weight: 0, 1, 2 (minus one), 3 small, 4 random
    pub weight: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// a contribution arrives (perhaps again)
    Recv { agg: usize, party: usize, style: u8 },
    /// several at once
    Batch { agg: usize, parties: Vec<usize>, style: u8 },
    Retract { agg: usize, party: usize, style: u8 },
    /// everything received so far is weighted anew
    Rescale { agg: usize, by: u8, seed: u64 },
    /// `from` hands its aggregate to `to` and starts again
    Merge { from: usize, to: usize },
    Checkpoint { agg: usize },
    Crash { agg: usize },
    /// the aggregate is opened at a point
    Audit { agg: usize, seed: u64 },
    /// faults stop: what is missing is sent again
    Quiesce,
}

#[derive(Clone)]
struct Agg {
    acc: Comm,
    rand: Rand,
    /// what the aggregate should be: party -> weight in it
    coef: BTreeMap<usize, F>,
    ids: BTreeSet<usize>,
}
impl Agg {
    fn new() -> Agg {
        Agg { acc: H::zero_comm(), rand: Rand::empty(), coef: BTreeMap::new(), ids: BTreeSet::new() }
    }
}

struct Sent {
    poly: Poly,
    comm: Comm,
    rand: Rand,
    weight: F,
}

fn scalar(kind: u8, p: &mut Prng) -> F {
    match kind {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(2 + p.below(300) as u64),
        _ => p.field(),
    }
}

fn send(parties: &[Party]) -> Result<Vec<Sent>, String> {
    let k = keys::<Kzg>(DEG, 0)?;
    let mut v: Vec<Sent> = vec![];
    for (i, x) in parties.iter().enumerate() {
        let mut p = Prng::derive(x.seed, "party");
        let mut co: Vec<F> = match x.kind {
            1 => vec![],
            2 => vec![p.value()],
            3 | 4 if x.of < i => {
                let s = if x.kind == 4 { -F::one() } else { F::one() };
                v[x.of].poly.coeffs.iter().map(|c| *c * s).collect()
            }
            _ => (0..=x.deg.min(DEG)).map(|_| p.value()).collect(),
        };
        while co.last().map_or(false, |c| c.is_zero()) {
            co.pop();
        }
        let poly = Poly::from_coefficients_vec(co);
        let mut rng = SimRng::new(&RngSpec::good(x.seed ^ 0x77));
        let hide = if x.hide { Some(1) } else { None };
        let lp = LabeledPolynomial::new(format!("p{}", i), poly.clone(), None, hide);
        let (c, r) = H::commit(&k.ck, std::iter::once(&lp), Some(&mut rng)).map_err(|e| format!("{:?}", e))?;
        // over the wire
        let mut b = vec![];
        c[0].commitment().serialize(&mut b).map_err(|e| format!("{:?}", e))?;
        let comm = Comm::deserialize(&b[..]).map_err(|e| format!("{:?}", e))?;
        v.push(Sent { poly, comm, rand: r[0].clone(), weight: scalar(x.weight, &mut p) });
    }
    Ok(v)
}

/// The aggregate by the group's own arithmetic.
fn expected(a: &Agg, s: &[Sent]) -> G1Affine {
    let mut t = G1Projective::zero();
    for (i, c) in &a.coef {
        t += s[*i].comm.0.mul(c.into_repr());
    }
    t.into_affine()
}
fn expected_rand(a: &Agg, s: &[Sent]) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    for (i, c) in &a.coef {
        for (j, x) in s[*i].rand.blinding_polynomial.coeffs.iter().enumerate() {
            if v.len() <= j {
                v.resize(j + 1, F::zero());
            }
            v[j] += *c * x;
        }
    }
    trim(v)
}
fn trim(mut v: Vec<F>) -> Vec<F> {
    while v.last().map_or(false, |c| c.is_zero()) {
        v.pop();
    }
    v
}

/// `acc + s c`, by one of the ways the helpers offer.
fn fold_in(a: &mut Agg, c: &Comm, r: &Rand, s: F, style: u8) {
    a.acc = match style % 6 {
        0 => H::add(&a.acc, &H::scale_com(c, s)),
        1 => H::msm(&[a.acc.clone(), c.clone()], &[F::one(), s]),
        2 => H::add(&H::scale_com(c, s), &a.acc),
        3 => H::neg_com(&H::add(&H::neg_com(&a.acc), &H::scale_com(c, -s))),
        4 => H::add(&a.acc, &H::neg_com(&H::scale_com(c, -s))),
        _ => H::add(&a.acc, &H::msm(&[c.clone()], &[s])),
    };
    let sr = H::scale_rand(r, s);
    match style % 3 {
        0 => a.rand = H::add_rands(&a.rand, &sr),
        1 => H::add_assign_rand(&mut a.rand, &sr),
        _ => a.rand = H::add_rands(&sr, &a.rand),
    }
}

fn apply(a: &mut Vec<Agg>, saved: &mut Vec<Agg>, s: &[Sent], op: &Op) -> &'static str {
    let n = s.len();
    match op {
        Op::Recv { agg, party, style } if *party < n => {
            if !a[*agg].ids.insert(*party) {
                return "repeated";
            }
            let x = &s[*party];
            fold_in(&mut a[*agg], &x.comm, &x.rand, x.weight, *style);
            *a[*agg].coef.entry(*party).or_insert(F::zero()) += x.weight;
            "received"
        }
        Op::Batch { agg, parties, style } => {
            let a = &mut a[*agg];
            let new: Vec<usize> = parties.iter().copied().filter(|p| *p < n && a.ids.insert(*p)).collect();
            let cs: Vec<Comm> = new.iter().map(|i| s[*i].comm.clone()).collect();
            let ws: Vec<F> = new.iter().map(|i| s[*i].weight).collect();
            if style % 2 == 0 {
                a.acc = H::add(&a.acc, &H::msm(&cs, &ws));
            } else {
                let mut cs = cs;
                let mut ws = ws;
                cs.insert(0, a.acc.clone());
                ws.insert(0, F::one());
                a.acc = H::msm(&cs, &ws);
            }
            for i in new {
                H::add_assign_rand(&mut a.rand, &H::scale_rand(&s[i].rand, s[i].weight));
                *a.coef.entry(i).or_insert(F::zero()) += s[i].weight;
            }
            "batch"
        }
        Op::Retract { agg, party, style } if *party < n => {
            let a = &mut a[*agg];
            if !a.ids.remove(party) {
                return "nothing to retract";
            }
            let w = a.coef.remove(party).unwrap_or_else(F::zero);
            let x = &s[*party];
            fold_in(a, &x.comm, &x.rand, -w, *style);
            "retracted"
        }
        Op::Rescale { agg, by, seed } => {
            let a = &mut a[*agg];
            let by = scalar(*by, &mut Prng::derive(*seed, "rescale"));
            a.acc = H::scale_com(&a.acc, by);
            a.rand = H::scale_rand(&a.rand, by);
            for c in a.coef.values_mut() {
                *c *= by;
            }
            "rescaled"
        }
        Op::Merge { from, to } if from != to => {
            let f = std::mem::replace(&mut a[*from], Agg::new());
            saved[*from] = a[*from].clone();
            let t = &mut a[*to];
            t.acc = H::add(&t.acc, &f.acc);
            t.rand = H::add_rands(&t.rand, &f.rand);
            for (i, c) in f.coef {
                *t.coef.entry(i).or_insert(F::zero()) += c;
                t.ids.insert(i);
            }
            saved[*to] = t.clone();
            "merged"
        }
        Op::Checkpoint { agg } => {
            saved[*agg] = a[*agg].clone();
            let mut b = vec![];
            let ok = a[*agg].acc.serialize(&mut b).is_ok();
            if let (true, Ok(c)) = (ok, Comm::deserialize(&b[..])) {
                saved[*agg].acc = c;
            }
            "checkpoint"
        }
        Op::Crash { agg } => {
            a[*agg] = saved[*agg].clone();
            "crash"
        }
        _ => "nothing",
    }
}

pub fn run<P: Backend>(w: &W<P>, aggs: usize, parties: &[Party], ops: &[Op]) {
    let s = match session(&Plan::default(), vec![], || send(parties)).0 {
        Outcome::Done(Ok(s)) => s,
        e => {
            let e = match e {
                Outcome::Done(Err(e)) => e,
                Outcome::Panic(e) => e,
                _ => "crash".into(),
            };
            w.borrow_mut().event(&format!("skipped: {}", e), &[]);
            w.borrow_mut().bump("skipped.commit failed");
            return;
        }
    };
    let mut a = vec![Agg::new(); aggs];
    let mut saved = a.clone();
    for (at, op) in ops.iter().enumerate() {
        let instead = |ops: &[Op]| {
            Some(Step::Fold { aggs, parties: parties.to_vec(), ops: ops[..=at.min(ops.len() - 1)].to_vec() })
        };
        let todo: Vec<Op> = match op {
            Op::Quiesce => (0..aggs)
                .flat_map(|g| (0..s.len()).map(move |p| (g, p)))
                .map(|(agg, party)| Op::Recv { agg, party, style: (agg + party) as u8 })
                .collect(),
            o => vec![o.clone()],
        };
        let mut what = "quiesce";
        let (o, _) = session(&Plan::default(), vec![], || {
            for o in &todo {
                let d = apply(&mut a, &mut saved, &s, o);
                if todo.len() == 1 {
                    what = d;
                }
            }
        });
        if let Outcome::Panic(e) = o {
            w.borrow_mut().fail("a helper operation panics", format!("{:?}: {}", op, e), instead(ops));
            return;
        }
        {
            let mut w = w.borrow_mut();
            match what {
                "repeated" => w.bump("fault.contribution repeated"),
                "crash" => w.bump("fault.aggregator crashed"),
                _ => w.bump(&format!("probe.{}", what)),
            }
            let mut b = vec![];
            for g in &a {
                let _ = g.acc.serialize(&mut b);
            }
            w.event(what, &b);
        }
        let bad = match session(&Plan::default(), vec![], || judge(&a, &s, op)).0 {
            Outcome::Done(x) => x,
            Outcome::Panic(e) => Some(("a helper operation panics", e)),
            Outcome::Crash => None,
        };
        w.borrow_mut().judged();
        if let Some((class, d)) = bad {
            w.borrow_mut().fail(class, format!("after {:?}: {}", op, d), instead(ops));
            return;
        }
    }
}

fn judge(a: &[Agg], s: &[Sent], op: &Op) -> Option<(&'static str, String)> {
    let ex: Vec<G1Affine> = a.iter().map(|g| expected(g, s)).collect();
    for (i, g) in a.iter().enumerate() {
        if g.acc.0 != ex[i] {
            return Some(("the aggregate is not the combination of what was received", format!("aggregator {}", i)));
        }
        if trim(g.rand.blinding_polynomial.coeffs.clone()) != expected_rand(g, s) {
            return Some(("the randomness is not the combination of what was received", format!("aggregator {}", i)));
        }
        if H::is_zero(&g.acc) != ex[i].is_zero() {
            return Some(("a commitment is taken for zero or not, wrongly", format!("aggregator {}", i)));
        }
        if H::eq_cm(&g.acc, &H::zero_comm()) != ex[i].is_zero() {
            return Some(("comparison with zero is wrong", format!("aggregator {}", i)));
        }
        // same x coordinate, and a neighbour
        let mut twin = g.acc.clone();
        twin.0 = -twin.0;
        if H::eq_cm(&g.acc, &twin) != (g.acc.0 == twin.0) || !H::eq_cm(&g.acc, &g.acc.clone()) {
            return Some(("comparison with its negation or itself is wrong", format!("aggregator {}", i)));
        }
        for j in 0..i {
            if H::eq_cm(&g.acc, &a[j].acc) != (ex[i] == ex[j]) {
                return Some(("comparison of aggregates is wrong", format!("aggregators {} and {}", j, i)));
            }
        }
        for x in s {
            if H::eq_cm(&g.acc, &x.comm) != (ex[i] == x.comm.0) {
                return Some(("comparison with a contribution is wrong", format!("aggregator {}", i)));
            }
        }
    }
    if let Op::Audit { agg, seed } = op {
        return audit(&a[*agg], s, *seed);
    }
    None
}

fn audit(g: &Agg, s: &[Sent], seed: u64) -> Option<(&'static str, String)> {
    let k = keys::<Kzg>(DEG, 0).ok()?;
    let mut co = vec![F::zero(); DEG + 1];
    for (i, c) in &g.coef {
        for (j, x) in s[*i].poly.coeffs.iter().enumerate() {
            co[j] += *c * x;
        }
    }
    let poly = Poly::from_coefficients_vec(trim(co));
    let mut p = Prng::derive(seed, "audit");
    let z = p.value();
    let y = poly.evaluate(&z);
    let lp = LabeledPolynomial::new("agg".into(), poly, None, None);
    let lc = LabeledCommitment::new("agg".into(), g.acc.clone(), None);
    let proof = match H::open(
        &k.ck,
        std::iter::once(&lp),
        std::iter::once(&lc),
        &z,
        F::one(),
        std::iter::once(&g.rand),
        None,
    ) {
        Ok(p) => p,
        Err(e) => return Some(("the aggregate cannot be opened", format!("{:?}", e))),
    };
    let check = |v: F| {
        H::check(&k.vk.clone(), std::iter::once(&lc), &z, std::iter::once(v), &proof, F::one(), None).unwrap_or(false)
    };
    if !check(y) {
        return Some(("the aggregate does not open to the combined value", String::new()));
    }
    if check(y + F::one()) {
        return Some(("the aggregate opens to a wrong value", String::new()));
    }
    None
}
