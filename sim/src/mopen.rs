//! The multi-point opening argument on its own: parties that commit to
//! polynomials of any degree, a prover that opens them at any sets of rotations
//! of a point, and long-lived verifiers, over a channel that damages, swaps and
//! repeats, with crashes, failing backends and provers that claim what is false.
use crate::node::{decode_mp, encode, keys, rotation, Backend};
use crate::prng::Prng;
use crate::seam::{challenges_so_far, session, Outcome, Plan, RngSpec, SimFs, SimPc, SimRng};
use crate::world::{Step, W};
use crate::{Poly, F};
use ark_ff::{to_bytes, Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::PolynomialCommitment;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;

type Mo<P> = Multiopen<F, SimPc<P>, SimFs>;
type Cm<P> = <SimPc<P> as PolynomialCommitment<F, Poly>>::Commitment;
type Rd<P> = <SimPc<P> as PolynomialCommitment<F, Poly>>::Randomness;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MCol {
    pub seed: u64,
    /// 0 random, 1 zero, 2 constant, 3 as column `of`, 4 minus column `of`
    pub kind: u8,
    pub of: usize,
    pub deg: usize,
    pub hide: bool,
    /// the rotations at which it is opened
    pub set: Vec<i32>,
}

/// Claims that are false: which, and how the prover tries to get away with it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cheat {
    /// (column, number of the rotation in its set, amount)
    pub claims: Vec<(usize, usize, i64)>,
    /// what the weight of the set's value is hoped to be: 0 nothing is done,
    /// 1 zero, 2 one, 3 x1, 4 x2, 5 x3, 6 the same as that of another set
    pub adapt: u8,
    pub set: usize,
    pub other: usize,
    /// the second claim, at the same point in another set, makes up for the
    /// first one if both sets count the same
    #[serde(default)]
    pub balance: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Change {
    None,
    QEval { at: usize, by: i64 },
    QSwap { a: usize, b: usize },
    QLen { more: bool },
    FCommit { how: u8 },
    Opening { how: u8 },
    /// 0 q_evals, 1 f_commit, 2 opening
    Splice { from: u32, part: u8 },
    Claim { col: usize, at: usize, by: i64 },
    SwapClaims { a: usize, b: usize },
    SwapCommitments { a: usize, b: usize },
    LackClaim { col: usize, at: usize },
    LackCommitment { col: usize },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MOp {
    Prove { msg: u32, point: u64, ctx: u64, rng: RngSpec, plan: Plan, cheat: Option<Cheat> },
    Check { verifier: u8, msg: u32, change: Change, plan: Plan },
    Restart { verifier: u8 },
}

struct Msg<P: Backend> {
    xi: F,
    ctx: u64,
    claims: Vec<Vec<F>>,
    truth: Vec<Vec<F>>,
    proof: Vec<u8>,
    _p: std::marker::PhantomData<P>,
}

enum Held<P: Backend> {
    W(WitnessVerifierOracle<F, SimPc<P>>),
    X(FixedVerifierOracle<F, SimPc<P>>),
}
impl<P: Backend> Held<P> {
    fn register(&mut self, p: F, v: F) {
        match self {
            Held::W(o) => o.register_eval_at_challenge(p, v),
            Held::X(o) => o.register_eval_at_challenge(p, v),
        }
    }
    fn commitment(&mut self, c: Cm<P>) {
        match self {
            Held::W(o) => o.register_commitment(c),
            Held::X(o) => o.register_commitment(c),
        }
    }
    fn view(&self) -> &dyn CommittedOracle<F, SimPc<P>> {
        match self {
            Held::W(o) => o,
            Held::X(o) => o,
        }
    }
}

fn hold<P: Backend>(cols: &[MCol]) -> Vec<Held<P>> {
    cols.iter()
        .enumerate()
        .map(|(k, c)| {
            if c.hide {
                let mut o = WitnessVerifierOracle::new(format!("c{}", k), false);
                c.set.iter().for_each(|&r| o.register_rotation(rotation(r)));
                Held::W(o)
            } else {
                let mut o = FixedVerifierOracle::new(format!("c{}", k), None);
                c.set.iter().for_each(|&r| o.register_rotation(rotation(r)));
                Held::X(o)
            }
        })
        .collect()
}

fn int(v: i64) -> F {
    if v < 0 {
        -F::from((-v) as u64)
    } else {
        F::from(v as u64)
    }
}

fn poly(cols: &[MCol], k: usize) -> Poly {
    let c = &cols[k];
    let mut p = Prng::derive(c.seed, "mcol");
    match c.kind {
        1 => Poly::zero(),
        2 => Poly::from_coefficients_vec(vec![p.value()]),
        3 if c.of < k => poly(cols, c.of),
        4 if c.of < k => -poly(cols, c.of),
        _ => Poly::from_coefficients_vec((0..=c.deg).map(|_| p.field()).collect()),
    }
}

fn transcript<P: Backend>(comms: &[Cm<P>], claims: &[Vec<F>], xi: &F, ctx: u64) -> SimFs {
    let flat: Vec<F> = claims.concat();
    SimFs::initialize(&to_bytes![comms, flat, xi, ctx].unwrap())
}

struct Setting<'a, P: Backend> {
    n: usize,
    omegas: Vec<F>,
    cols: &'a [MCol],
    polys: Vec<Poly>,
    prover: Vec<Box<dyn Instantiable<F>>>,
    comms: Vec<Cm<P>>,
    rands: Vec<Rd<P>>,
}

impl<'a, P: Backend> Setting<'a, P> {
    fn point(&self, xi: F, r: i32) -> F {
        let n = self.n as i32;
        xi * self.omegas[((r % n + n) % n) as usize]
    }
    fn values(&self, xi: F) -> Vec<Vec<F>> {
        self.cols
            .iter()
            .zip(&self.polys)
            .map(|(c, p)| c.set.iter().map(|&r| p.evaluate(&self.point(xi, r))).collect())
            .collect()
    }
    /// Columns by the set of their rotations, sets in the library's order.
    fn sets(&self) -> Vec<(Vec<i32>, Vec<usize>)> {
        let mut m = BTreeMap::<BTreeSet<Rotation>, (Vec<i32>, Vec<usize>)>::new();
        for (k, c) in self.cols.iter().enumerate() {
            let key = c.set.iter().map(|&r| rotation(r)).collect();
            m.entry(key).or_insert_with(|| (c.set.clone(), vec![])).1.push(k);
        }
        m.into_iter().map(|x| x.1).collect()
    }
    /// What a cheating prover adds to the value of one set.
    fn adapted(&self, xi: F, wrong: &[Vec<F>], ch: &Cheat, c: &[F]) -> Vec<(usize, F)> {
        let sets = self.sets();
        if ch.adapt == 0 || c.len() < 3 || sets.is_empty() {
            return vec![];
        }
        let (x1, x2, x3) = (c[0], c[1], c[2]);
        let mut total = F::zero();
        let mut z = vec![];
        for (i, (rots, cols)) in sets.iter().enumerate() {
            let pts: Vec<F> = rots.iter().map(|&r| self.point(xi, r)).collect();
            let mut dr = F::zero();
            let mut zi = F::one();
            for (j, p) in pts.iter().enumerate() {
                zi *= x3 - p;
                let mut l = F::one();
                for (k, q) in pts.iter().enumerate() {
                    if k != j {
                        l *= (x3 - q) * (*p - q).inverse().unwrap_or_else(F::zero);
                    }
                }
                let mut pow = F::one();
                for &col in cols {
                    // rotations of one set come in the same order everywhere
                    let at = self.cols[col].set.iter().position(|r| r == &rots[j]);
                    if let Some(at) = at {
                        dr += l * pow * wrong[col][at];
                    }
                    pow *= x1;
                }
            }
            let zinv = zi.inverse().unwrap_or_else(F::zero);
            total += x2.pow(&[i as u64]) * dr * zinv;
            z.push(zinv);
        }
        let i = ch.set % sets.len();
        if ch.adapt == 6 {
            let j = (i + 1 + ch.other % sets.len()) % sets.len();
            let w = |k: usize| x2.pow(&[k as u64]) * z[k];
            return match (w(i) - w(j)).inverse() {
                Some(d) => vec![(i, total * d), (j, -total * d)],
                None => vec![],
            };
        }
        let guess = [F::zero(), F::one(), x1, x2, x3][(ch.adapt as usize - 1) % 5];
        let den = x2.pow(&[i as u64]) * z[i] + guess;
        match den.inverse() {
            Some(d) => vec![(i, total * d)],
            None => vec![],
        }
    }
}

pub fn run<P: Backend>(w: &W<P>, k: u32, degree: usize, cols: &[MCol], ops: &[MOp]) {
    let keys = match keys::<P>(degree, 0) {
        Ok(k) => k,
        Err(e) => {
            w.borrow_mut().fail("keys refused", e, None);
            return;
        }
    };
    let n = 1usize << k;
    let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let polys: Vec<Poly> = (0..cols.len()).map(|i| poly(cols, i)).collect();
    let (o, _) = session(&Plan::default(), vec![], || {
        let prover: Vec<Box<dyn Instantiable<F>>> = cols
            .iter()
            .zip(&polys)
            .enumerate()
            .map(|(i, (c, p))| -> Box<dyn Instantiable<F>> {
                let evals = domain.fft(&p.coeffs[..p.coeffs.len().min(n)]);
                if c.hide {
                    let mut o = WitnessProverOracle::new(format!("c{}", i), p.clone(), &evals, false);
                    c.set.iter().for_each(|&r| o.register_rotation(rotation(r)));
                    Box::new(o)
                } else {
                    let mut o = FixedProverOracle::new(format!("c{}", i), p.clone(), &evals);
                    c.set.iter().for_each(|&r| o.register_rotation(rotation(r)));
                    Box::new(o)
                }
            })
            .collect();
        let mut comms = vec![];
        let mut rands = vec![];
        for (o, c) in prover.iter().zip(cols) {
            let mut r = SimRng::new(&RngSpec::good(c.seed ^ 0xab));
            match SimPc::<P>::commit(&keys.ck, std::iter::once(&o.to_labeled()), Some(&mut r)) {
                Ok((mut c, mut r)) => {
                    comms.push(c.remove(0).commitment().clone());
                    rands.push(r.remove(0));
                }
                Err(e) => return Err(format!("{:?}", e)),
            }
        }
        Ok((prover, comms, rands))
    });
    let (prover, comms, rands) = match o {
        Outcome::Done(Ok(x)) => x,
        Outcome::Done(Err(e)) | Outcome::Panic(e) => {
            w.borrow_mut().fail("committing to columns fails", e, None);
            return;
        }
        Outcome::Crash => return,
    };
    let s = Setting::<P> { n, omegas: domain.elements().collect(), cols, polys, prover, comms, rands };
    let mut msgs = BTreeMap::<u32, Msg<P>>::new();
    let mut held = BTreeMap::<u8, Vec<Held<P>>>::new();
    for (at, op) in ops.iter().enumerate() {
        let instead = Some(Step::Opens { k, degree, cols: cols.to_vec(), ops: ops[..=at].to_vec() });
        let bad = match op {
            MOp::Restart { verifier } => {
                held.remove(verifier);
                w.borrow_mut().bump("fault.verifier restarted");
                w.borrow_mut().event("restart", &[]);
                None
            }
            MOp::Prove { msg, point, ctx, rng, plan, cheat } => {
                let (m, bad) = prove(w, &s, &keys.ck, *point, *ctx, rng, plan, cheat);
                if let Some(m) = m {
                    msgs.insert(*msg, m);
                }
                bad
            }
            MOp::Check { verifier, msg, change, plan } => {
                let h = held.entry(*verifier).or_insert_with(|| hold(cols));
                check(w, &s, &keys.vk, h, &msgs, *msg, change, plan)
            }
        };
        if let Some((class, d)) = bad {
            w.borrow_mut().fail(class, format!("at {:?}: {}", op, d), instead);
            return;
        }
    }
}

type Bad = Option<(&'static str, String)>;

#[allow(clippy::too_many_arguments)]
fn prove<P: Backend>(
    w: &W<P>,
    s: &Setting<P>,
    ck: &crate::node::Ck<P>,
    point: u64,
    ctx: u64,
    rng: &RngSpec,
    plan: &Plan,
    cheat: &Option<Cheat>,
) -> (Option<Msg<P>>, Bad) {
    let xi = {
        let mut p = Prng::derive(point, "xi");
        match point % 8 {
            0 => F::from(2 + p.below(5) as u64),
            1 => s.omegas[p.below(s.n)],
            _ => p.field(),
        }
    };
    let truth = s.values(xi);
    let mut wrong: Vec<Vec<F>> = truth.iter().map(|v| vec![F::zero(); v.len()]).collect();
    if let Some(c) = cheat {
        for &(col, r, d) in &c.claims {
            if let Some(x) = wrong.get_mut(col).and_then(|v| v.get_mut(r)) {
                *x += int(d);
            }
        }
    }
    if let Some(Cheat { claims: c, balance: true, .. }) = cheat {
        if let [(c1, r1, _), (c2, r2, _), ..] = c[..] {
            let at = |c: usize, r: usize| -> Option<(F, F)> {
                let set = &s.cols.get(c)?.set;
                let p = s.point(xi, *set.get(r)?);
                let rest = set.iter().enumerate().filter(|x| x.0 != r);
                Some((p, rest.map(|(_, &o)| p - s.point(xi, o)).product()))
            };
            if let (Some((p1, z1)), Some((p2, z2))) = (at(c1, r1), at(c2, r2)) {
                if c1 != c2 && p1 == p2 {
                    wrong[c2][r2] = -wrong[c1][r1] * z2 * z1.inverse().unwrap_or_else(F::zero);
                }
            }
        }
    }
    let claims: Vec<Vec<F>> =
        truth.iter().zip(&wrong).map(|(t, d)| t.iter().zip(d).map(|(a, b)| *a + *b).collect()).collect();
    let refs: Vec<&dyn Instantiable<F>> = s.prover.iter().map(|b| &**b).collect();
    let (o, log) = session(plan, vec![], || {
        let mut fs = transcript::<P>(&s.comms, &claims, &xi, ctx);
        let mut r = SimRng::new(rng);
        if let Some(c) = cheat.clone() {
            // everything it needs is worked out when the value is due
            let t: *const Setting<P> = s;
            let t = t as usize;
            let wrong = wrong.clone();
            zero_over_k::sim::set_callback(Some(Box::new(move |site, v| {
                if site == "multiopen.q_evals" {
                    let ch = challenges_so_far();
                    // the setting outlives the session
                    let s = unsafe { &*(t as *const Setting<P>) };
                    if let Some(q) = v[0].downcast_mut::<Vec<F>>() {
                        for (i, e) in s.adapted(xi, &wrong, &c, &ch) {
                            if i < q.len() {
                                q[i] += e;
                            }
                        }
                    }
                }
            })));
        }
        let out = Mo::<P>::prove(ck, &refs, &s.rands, xi, s.n, &mut fs, &mut r);
        zero_over_k::sim::set_callback(None);
        out.map(|p| encode(&p)).map_err(|e| format!("{:?}", e))
    });
    let injected = log.injected.is_some();
    let mut w = w.borrow_mut();
    if let Some(i) = &log.injected {
        w.bump(&format!("fault.{}", i));
    }
    if cheat.is_some() {
        w.bump("attack.false claim");
    }
    w.judged();
    let m = |proof: Vec<u8>| Msg { xi, ctx, claims, truth, proof, _p: std::marker::PhantomData };
    match o {
        Outcome::Crash => {
            w.event("prover crashed", &[]);
            (None, None)
        }
        Outcome::Panic(e) => {
            w.event("prove panics", &[]);
            (None, if cheat.is_none() { Some(("opening panics", e)) } else { None })
        }
        Outcome::Done(Err(e)) => {
            w.event("prove fails", e.as_bytes());
            let bad = if injected || cheat.is_some() { None } else { Some(("opening fails", e)) };
            (None, bad)
        }
        Outcome::Done(Ok(b)) => {
            w.event("proved", &b);
            let bad = if injected { Some(("the backend failed and a proof was returned", String::new())) } else { None };
            (Some(m(b)), bad)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn check<P: Backend>(
    w: &W<P>,
    s: &Setting<P>,
    vk: &crate::node::Vk<P>,
    held: &mut Vec<Held<P>>,
    msgs: &BTreeMap<u32, Msg<P>>,
    msg: u32,
    change: &Change,
    plan: &Plan,
) -> Bad {
    let m = match msgs.get(&msg) {
        Some(m) => m,
        None => return None,
    };
    let mut claims = m.claims.clone();
    let mut comms = s.comms.clone();
    // which polynomial a commitment stands for
    let mut of: Vec<usize> = (0..comms.len()).collect();
    let mut proof = match decode_mp::<P>(&m.proof) {
        Ok(p) => p,
        Err(e) => return Some(("a proof does not survive its encoding", e)),
    };
    let mut lack = false;
    let other = |b: u32| msgs.get(&b).and_then(|o| decode_mp::<P>(&o.proof).ok());
    match change {
        Change::None => {}
        Change::QEval { at, by } => {
            let l = proof.q_evals.len().max(1);
            if let Some(q) = proof.q_evals.get_mut(at % l) {
                *q += int(*by);
            }
        }
        Change::QSwap { a, b } => {
            let l = proof.q_evals.len();
            if l > 0 {
                proof.q_evals.swap(a % l, b % l);
            }
        }
        Change::QLen { more: true } => proof.q_evals.push(F::zero()),
        Change::QLen { more: false } => {
            proof.q_evals.pop();
        }
        Change::FCommit { how } => proof.f_commit = tampered::<P>(&proof.f_commit, &comms, *how),
        Change::Opening { how } => P::tamper_opening(&mut proof.opening_proof, *how),
        Change::Splice { from, part } => {
            if let Some(o) = other(*from) {
                match part % 3 {
                    0 => proof.q_evals = o.q_evals,
                    1 => proof.f_commit = o.f_commit,
                    _ => proof.opening_proof = o.opening_proof,
                }
            }
        }
        Change::Claim { col, at, by } => {
            if let Some(v) = claims.get_mut(*col).and_then(|c| c.get_mut(*at)) {
                *v += int(*by);
            }
        }
        Change::SwapClaims { a, b } => {
            let flat: Vec<(usize, usize)> =
                claims.iter().enumerate().flat_map(|(i, c)| (0..c.len()).map(move |j| (i, j))).collect();
            if !flat.is_empty() {
                let (x, y) = (flat[a % flat.len()], flat[b % flat.len()]);
                let t = claims[x.0][x.1];
                claims[x.0][x.1] = claims[y.0][y.1];
                claims[y.0][y.1] = t;
            }
        }
        Change::SwapCommitments { a, b } => {
            let l = comms.len();
            if l > 0 {
                comms.swap(a % l, b % l);
                of.swap(a % l, b % l);
            }
        }
        Change::LackClaim { .. } | Change::LackCommitment { .. } => lack = true,
    }
    let bytes = encode(&proof);
    let same_proof = bytes == m.proof;
    // what is claimed against what is committed to
    let all_true = s.cols.iter().enumerate().all(|(i, c)| {
        c.set
            .iter()
            .zip(&claims[i])
            .all(|(&r, v)| s.polys[of[i]].evaluate(&s.point(m.xi, r)) == *v)
    });
    let as_sent = claims == m.claims && of.iter().enumerate().all(|(i, &j)| i == j);
    let mut spare;
    let used: &mut Vec<Held<P>> = if lack {
        spare = hold(s.cols);
        &mut spare
    } else {
        held
    };
    let mut missing = false;
    let (o, log) = session(plan, vec![], || {
        let p = match decode_mp::<P>(&bytes) {
            Ok(p) => p,
            Err(e) => return Err(e),
        };
        for (i, h) in used.iter_mut().enumerate() {
            match change {
                Change::LackCommitment { col } if *col == i => missing = true,
                _ => h.commitment(comms[i].clone()),
            }
            for (j, (&r, v)) in s.cols[i].set.iter().zip(&claims[i]).enumerate() {
                match change {
                    Change::LackClaim { col, at } if *col == i && *at == j => missing = true,
                    _ => h.register(s.point(m.xi, r), *v),
                }
            }
        }
        let view: Vec<&dyn CommittedOracle<F, SimPc<P>>> = used.iter().map(|h| h.view()).collect();
        let mut fs = transcript::<P>(&comms, &claims, &m.xi, m.ctx);
        Mo::<P>::verify(vk, p, &view, m.xi, s.n, &mut fs).map_err(|e| format!("{:?}", e))
    });
    let injected = log.injected.is_some();
    let mut w = w.borrow_mut();
    if let Some(i) = &log.injected {
        w.bump(&format!("fault.{}", i));
    }
    if *change != Change::None {
        let t = format!("{:?}", change);
        let t = t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        w.bump(&format!("fault.changed {}", t));
    }
    w.judged();
    let r = match &o {
        Outcome::Done(Ok(())) => "accept",
        Outcome::Done(Err(_)) => "reject",
        Outcome::Panic(_) => "panic",
        Outcome::Crash => "crash",
    };
    w.event(&format!("check {} {}", all_true, r), &bytes);
    w.bump(&format!("verdict.{}", r));
    match o {
        Outcome::Crash => None,
        Outcome::Panic(e) => Some(("checking openings panics", e)),
        Outcome::Done(Ok(())) if injected => Some(("accepted although the backend failed", String::new())),
        Outcome::Done(Ok(())) if missing => Some(("accepted without a value or commitment", String::new())),
        Outcome::Done(Ok(())) if !all_true => Some(("a false value was accepted", String::new())),
        Outcome::Done(Ok(())) if as_sent && !same_proof => {
            Some(("a changed opening proof was accepted", String::new()))
        }
        Outcome::Done(Ok(())) => None,
        Outcome::Done(Err(e)) => {
            if !injected && !missing && same_proof && m.claims == m.truth && as_sent {
                Some(("true openings were refused", e))
            } else {
                None
            }
        }
    }
}

fn tampered<P: Backend>(c: &Cm<P>, all: &[Cm<P>], how: u8) -> Cm<P> {
    use zero_over_k::commitment::HomomorphicCommitment;
    match how % 5 {
        0 => P::zero_comm(),
        1 => P::neg_com(c),
        2 => P::add(c, c),
        3 => all.first().cloned().unwrap_or_else(P::zero_comm),
        _ => P::scale_com(c, F::from(3u64)),
    }
}

/// The rotations of a set, no point named twice.
pub fn a_set(p: &mut Prng, n: usize) -> Vec<i32> {
    let most = *p.pick(&[0usize, 1, 1, 1, 2, 2, 3, 6]);
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for _ in 0..most {
        let r = match p.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => -1,
            _ => p.below(2 * n) as i32 - n as i32,
        };
        if seen.insert(r.rem_euclid(n as i32)) {
            v.push(r);
        }
    }
    v.sort_by_key(|&r| rotation(r));
    v
}

