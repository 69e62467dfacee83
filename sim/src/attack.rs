//! Provers that deviate from the algorithm.
//!
//! A deviating prover commits to an assignment that is not one of the circuit
//! (or claims values that are not those of its columns) and then does whatever
//! it likes with its helper columns, its claimed values and its opening data,
//! through the value taps. It is given the reference model of the argument, so
//! that it can balance one false claim against another.
use crate::circuit::*;
use crate::model::{Chal, Evals, Model, Slot};
use crate::node::*;
use crate::prng::{f, inv, Prng};
use crate::probe::{evals_of, extended, fit_model, prove_logged, with_evals};
use crate::roots::root;
use crate::seam::*;
use crate::tamper;
use crate::world::*;
use crate::F;
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::WitnessProverOracle;
use zero_over_k::vo::VirtualOracle;

type Wpo = WitnessProverOracle<F>;

/// A place in the chain of running products. Numbers are reduced to what the
/// proof at hand has.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Loc {
    Start,
    Prod(usize, usize),
    Stitch(usize),
}

/// What is done to a chain of running products.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Chain {
    #[default]
    Plain,
    /// one step is wrong by the factor that makes the end right
    Fix(Loc),
    /// zero from there on
    Zero(Loc),
    /// two steps are wrong, and the two violations add up to zero
    Pair(Loc, Loc, bool),
    /// both chains of two lookups are wrong at two rows each, cancelling
    Twin(usize, usize, bool),
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Helper {
    #[default]
    Plain,
    /// inputs replaced by good ones
    Inputs,
    /// table completed by the bad value
    Table,
    /// both columns true, the bad value at (about) this row
    Row(usize),
    /// both columns true, the bad value first, the column's last row equal to
    /// its first
    First,
    /// constant inputs, first table value one more
    Diff,
    /// as `First`, the column's last row one more (or less) than its first, so
    /// that the check of the first row and that of all rows add up to zero
    Wrap(bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LkSpec {
    pub lookup: usize,
    pub helper: Helper,
    pub chain: Chain,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Forge {
    #[default]
    None,
    /// one claim is changed so that the combined constraint balances
    Solve(usize),
    /// one claim is changed, another one balances it
    Move(usize, usize),
    /// one claim is changed
    Shift(usize),
    /// two claims of one opening set are changed so that their combination
    /// under the challenge of an earlier attempt stays the same
    Rewind(usize, usize),
    /// `Move`, and the value of the opening set is adapted: 0 as if it did not
    /// enter the final opening, 1 as if it entered with factor one, 2 and 3
    /// with the challenge of an earlier attempt; 4: the values of two sets are,
    /// as if they entered with the same factor
    Folded(usize, usize, u8),
    /// two claims in different opening sets, balancing under the earlier x2
    Across(usize, usize),
    /// as if two opening sets, or two columns of one set, had equal weights
    Equal(usize, usize),
    /// like `Move` between two claims about the same kind of column, or one
    /// claim alone when the combined constraint balances there a second time
    Kin(usize, usize),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    #[serde(default)]
    pub perm: Chain,
    #[serde(default)]
    pub lk: Vec<LkSpec>,
    #[serde(default)]
    pub forge: Forge,
    /// search for an assignment that the library's gates take for good
    #[serde(default)]
    pub roots: Option<u64>,
    /// The prover leaves out (false) or adds (true) a part: 0 to 8 an
    /// evaluation, 9 an opening value, 10 a lookup accumulator, 11 a quotient
    /// chunk, 12 to 16 a commitment of each round.
    #[serde(default)]
    pub parts: Option<(u8, bool)>,
    /// A satisfied statement of the same circuit, for the model.
    #[serde(default)]
    pub base: Option<usize>,
}

// ----------------------------------------------------------------- chains

type Zs = Vec<Vec<F>>;

fn norm(l: Loc, nz: usize, u: usize) -> Option<Loc> {
    Some(match l {
        Loc::Start => Loc::Start,
        Loc::Prod(k, r) => Loc::Prod(k % nz, r % u.max(1)),
        Loc::Stitch(_) if nz < 2 => return None,
        Loc::Stitch(k) => Loc::Stitch(k % (nz - 1)),
    })
}

/// Where in the chain a location changes values from: (chunk, row).
fn from(l: Loc) -> (usize, usize) {
    match l {
        Loc::Start => (0, 0),
        Loc::Prod(k, r) => (k, r + 1),
        Loc::Stitch(k) => (k + 1, 0),
    }
}

fn scale(z: &mut Zs, l: Loc, by: F) {
    let (k, r) = from(l);
    for (i, c) in z.iter_mut().enumerate() {
        for (j, v) in c.iter_mut().enumerate() {
            if i > k || (i == k && j >= r) {
                *v *= by;
            }
        }
    }
}

/// Value of the constraint that a location belongs to. `mult[k][r]` is the
/// factor of z[r+1], `honest` the chain before it was changed.
fn value(l: Loc, z: &Zs, honest: &Zs, mult: &dyn Fn(usize, usize) -> F) -> F {
    match l {
        Loc::Start => F::one() - z[0][0],
        Loc::Stitch(k) => z[k + 1][0] - *z[k].last().unwrap(),
        Loc::Prod(k, r) => {
            // right side: z[r] * num, with num = den * honest ratio
            let den = mult(k, r);
            let ratio = honest[k][r + 1] * inv(honest[k][r]);
            den * (z[k][r + 1] - z[k][r] * ratio)
        }
    }
}

fn row_of(l: Loc) -> usize {
    match l {
        Loc::Prod(_, r) => r,
        _ => 0,
    }
}

/// Applies a chain cheat; None if it does not exist here.
fn cheat(
    honest: &Zs,
    c: Chain,
    u: usize,
    mult: &dyn Fn(usize, usize) -> F,
) -> Option<Zs> {
    let nz = honest.len();
    let mut z = honest.clone();
    let end = *honest.last()?.last()?;
    if end.is_zero() {
        return None;
    }
    match c {
        Chain::Plain => {}
        Chain::Fix(l) => scale(&mut z, norm(l, nz, u)?, inv(end)),
        Chain::Zero(l) => scale(&mut z, norm(l, nz, u)?, F::zero()),
        Chain::Pair(a, b, neg) => {
            let (mut a, mut b) = (norm(a, nz, u)?, norm(b, nz, u)?);
            if from(a) > from(b) {
                std::mem::swap(&mut a, &mut b);
            }
            if a == b || row_of(a) != row_of(b) {
                return None;
            }
            let at = |s: F| {
                let mut z = honest.clone();
                scale(&mut z, a, s);
                scale(&mut z, b, inv(end * s));
                z
            };
            let sum = |s: F| {
                let z = at(s);
                let (x, y) = (value(a, &z, honest, mult), value(b, &z, honest, mult));
                if neg {
                    x - y
                } else {
                    x + y
                }
            };
            // linear in s
            let (p, q) = (f(2), f(3));
            let (vp, vq) = (sum(p), sum(q));
            let slope = vq - vp;
            if slope.is_zero() {
                return None;
            }
            let s = p - vp * inv(slope);
            if s.is_zero() || !sum(s).is_zero() {
                return None;
            }
            z = at(s);
        }
        Chain::Twin(..) => return None,
    }
    Some(z)
}

// ---------------------------------------------------------------- helpers

fn groups(v: &[F]) -> BTreeMap<F, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}

/// The two helper columns for inputs `a` and table `s`.
fn helper_columns(h: Helper, a: &[F], s: &[F]) -> Option<(Vec<F>, Vec<F>)> {
    let u = a.len();
    if u == 0 {
        return None;
    }
    let mut table = groups(s);
    let mut a = a.to_vec();
    if h == Helper::Diff {
        let c = s[0];
        let mut sp = s.to_vec();
        sp[0] = c + F::one();
        return Some((vec![c; u], sp));
    }
    let bad: Vec<F> = groups(&a).keys().filter(|v| !table.contains_key(v)).cloned().collect();
    if h == Helper::Inputs {
        for v in a.iter_mut() {
            if bad.contains(v) {
                *v = s[0];
            }
        }
    }
    let mut gs: Vec<(F, usize)> = groups(&a).into_iter().collect();
    let row = match h {
        Helper::Row(r) => Some(r % u),
        Helper::First | Helper::Wrap(_) => Some(0),
        _ => None,
    };
    if let Some(row) = row {
        if bad.len() != 1 {
            return None;
        }
        let k = gs.iter().position(|g| g.0 == bad[0])?;
        let g = gs.remove(k);
        let mut at = 0;
        let mut cum = 0;
        while at < gs.len() && cum + gs[at].1 <= row {
            cum += gs[at].1;
            at += 1;
        }
        gs.insert(at, g);
    }
    let mut ap = vec![];
    let mut sp: Vec<Option<F>> = vec![];
    for (v, n) in gs {
        for i in 0..n {
            ap.push(v);
            let fixed = if i > 0 {
                None
            } else if let Some(c) = table.get_mut(&v) {
                *c -= 1;
                Some(v)
            } else if h == Helper::Table {
                Some(v)
            } else {
                None
            };
            sp.push(fixed);
        }
    }
    let mut left: Vec<F> = vec![];
    for (v, n) in table {
        for _ in 0..n {
            left.push(v);
        }
    }
    left.reverse();
    let sp = sp
        .into_iter()
        .map(|x| match x {
            Some(v) => Some(v),
            None => left.pop(),
        })
        .collect::<Option<Vec<F>>>()?;
    Some((ap, sp))
}

// -------------------------------------------------------------------- taps

#[derive(Default)]
struct LkState {
    a: Vec<F>,
    s: Vec<F>,
    ap: Vec<F>,
    sp: Vec<F>,
    z: Vec<F>,
}

struct State {
    c: Rc<Circuit>,
    a: Assign,
    x: Vec<Col>,
    t: Vec<Col>,
    spec: Spec,
    extended: usize,
    model: Option<Rc<Model>>,
    /// challenges of an earlier attempt
    earlier: Vec<F>,
    sorted: usize,
    permuted: usize,
    made: usize,
    lk: Vec<LkState>,
    perm: Zs,
    tail: Vec<Vec<F>>,
    truth: Option<Evals>,
    claims: Option<Evals>,
    q_evals: Option<(Vec<F>, Vec<F>)>,
    /// the deviation could not be carried out here
    missing: Option<&'static str>,
    seen: Vec<&'static str>,
    parts_done: bool,
}

fn rebuild(label: String, evals: &[F], rots: &[(usize, bool)], old: Option<&Wpo>, ext: usize) -> Wpo {
    let d = GeneralEvaluationDomain::<F>::new(evals.len()).unwrap();
    let poly = ark_poly::UVPolynomial::from_coefficients_vec(d.ifft(evals));
    let mut o = Wpo::new(label, poly, evals, false);
    for &(k, _) in rots {
        o.register_rotation(rotation(k as i32));
    }
    if let Some(old) = old {
        for r in old.get_queried_rotations() {
            o.register_rotation(*r);
        }
    }
    o.compute_extended_evals(&GeneralEvaluationDomain::<F>::new(ext).unwrap());
    o
}

impl State {
    fn theta_fold(&self, v: &[F], theta: F) -> F {
        let mut p = F::one();
        let mut acc = F::zero();
        for x in v {
            acc += *x * p;
            p *= theta;
        }
        acc
    }

    fn tap(&mut self, site: &'static str, v: &mut [&mut dyn Any]) {
        if !self.seen.contains(&site) {
            self.seen.push(site);
        }
        match site {
            "permutation.constructed" => {
                if let Some(o) = v[0].downcast_mut::<Vec<Wpo>>() {
                    self.perm_constructed(o)
                }
            }
            "permutation.committed" => {
                if let Some(o) = v[0].downcast_mut::<Vec<Wpo>>() {
                    self.perm_committed(o)
                }
            }
            "lookup.sorted" => {
                if let Some(o) = v[0].downcast_mut::<Vec<F>>() {
                    self.lookup_sorted(o)
                }
            }
            "lookup.permuted" => {
                if v.len() == 2 {
                    let (l, r) = v.split_at_mut(1);
                    if let (Some(a), Some(s)) = (l[0].downcast_mut::<Vec<F>>(), r[0].downcast_mut::<Vec<F>>()) {
                        self.lookup_permuted(a, s)
                    }
                }
            }
            "lookup.constructed" => {
                if let Some(o) = v[0].downcast_mut::<Vec<F>>() {
                    self.lookup_constructed(o)
                }
            }
            "quotient.chunks" => {
                if let Some(o) = v[0].downcast_mut::<Vec<Wpo>>() {
                    self.part(11, o)
                }
            }
            "lookup.committed" if self.spec.parts.is_some() => {
                if let Some(o) = v[0].downcast_mut::<Vec<Wpo>>() {
                    self.part(10, o)
                }
            }
            "lookup.committed" => {
                if let Some(o) = v[0].downcast_mut::<Vec<Wpo>>() {
                    self.lookup_committed(o)
                }
            }
            "evals" => {
                if self.spec.parts.is_some() {
                    if let Some(t) = v[0].downcast_mut::<crate::probe::EvalTuple>() {
                        self.part(0, &mut t.0);
                        self.part(1, &mut t.1);
                        self.part(2, &mut t.2);
                        self.part(3, &mut t.3);
                        self.part(5, &mut t.5);
                        self.part(6, &mut t.6);
                        self.part(7, &mut t.7);
                        self.part(8, &mut t.8);
                    }
                }
                self.evals(v)
            }
            "multiopen.q_evals" => {
                if let Some(o) = v[0].downcast_mut::<Vec<F>>() {
                    self.part(9, o);
                    self.q(o)
                }
            }
            _ => {}
        }
    }

    fn part<T: Clone>(&mut self, place: u8, v: &mut Vec<T>) {
        if let Some((p, more)) = self.spec.parts {
            if p == place {
                match v.last().cloned() {
                    Some(x) if more => v.push(x),
                    Some(_) => {
                        v.pop();
                    }
                    None => return,
                }
                self.parts_done = true;
            }
        }
    }

    fn perm_constructed(&mut self, o: &mut Vec<Wpo>) {
        let u = self.c.u;
        self.perm = o.iter().map(|p| p.evals()[..=u].to_vec()).collect();
        self.tail = o.iter().map(|p| p.evals()[u + 1..].to_vec()).collect();
        // past the prover's own sanity check
        if let Some(last) = o.last_mut() {
            if !last.evals()[u].is_one() {
                let mut e = last.evals().clone();
                e[u] = F::one();
                *last = rebuild(last.get_label(), &e, &[], Some(last), self.extended);
            }
        }
    }

    fn perm_committed(&mut self, o: &mut Vec<Wpo>) {
        if self.perm.len() != o.len() || self.perm.is_empty() {
            self.missing = Some("no accumulators");
            return;
        }
        let ch = challenges_so_far();
        let u = self.c.u;
        let nz = self.perm.len();
        let perm = self.c.permuted();
        let (beta, gamma) = match ch.len() {
            0..=2 => (F::zero(), F::zero()),
            _ => (ch[1], ch[2]),
        };
        let sigma = self.c.sigma_columns();
        // the chunk size that explains the first ratio
        let deltas = self.c.deltas();
        let dom = self.c.domain();
        let fac = |chunk: usize, k: usize, r: usize| -> (F, F) {
            let mut num = F::one();
            let mut den = F::one();
            for j in k * chunk..((k + 1) * chunk).min(perm.len()) {
                let w = self.a.w[perm[j]][r];
                num *= w + beta * deltas[j] * dom.element(r) + gamma;
                den *= w + beta * sigma[j][r] + gamma;
            }
            (num, den)
        };
        let chunk = Model::chunk_candidates(perm.len(), nz).into_iter().find(|&m| {
            (0..nz).all(|k| {
                let (n, d) = fac(m, k, 0);
                self.perm[k][0] * n == self.perm[k][1] * d
            })
        });
        let mult = |k: usize, r: usize| chunk.map_or(F::one(), |m| fac(m, k, r).1);
        if matches!(self.spec.perm, Chain::Pair(..)) && chunk.is_none() {
            self.missing = Some("accumulators not understood");
            return;
        }
        match cheat(&self.perm, self.spec.perm, u, &mult) {
            None => self.missing = Some("no such place in the accumulators"),
            Some(z) => {
                for (k, (c, t)) in z.iter().zip(&self.tail).enumerate() {
                    let mut e = c.clone();
                    e.extend_from_slice(t);
                    o[k] = rebuild(o[k].get_label(), &e, &[], Some(&o[k]), self.extended);
                }
            }
        }
    }

    fn lk_spec(&self, i: usize) -> Option<LkSpec> {
        self.spec.lk.iter().find(|l| l.lookup == i).cloned()
    }

    fn lookup_sorted(&mut self, v: &mut Vec<F>) {
        let i = self.sorted;
        self.sorted += 1;
        let theta = match challenges_so_far().first() {
            Some(t) => *t,
            None => return,
        };
        if i >= self.c.lookups.len() {
            return;
        }
        let c = self.c.clone();
        let l = &c.lookups[i];
        let n = c.n();
        let a: Vec<F> = (0..c.u)
            .map(|r| self.theta_fold(&c.lookup_tuple(l, r, &self.a, &self.x), theta))
            .collect();
        let s: Vec<F> = (0..c.u)
            .map(|r| {
                let row: Vec<F> = l.table.iter().map(|&(t, q)| self.t[t][rot(r, q, n)]).collect();
                self.theta_fold(&row, theta)
            })
            .collect();
        while self.lk.len() <= i {
            self.lk.push(LkState::default());
        }
        if s.is_empty() {
            return;
        }
        // do not stumble over values the library would not find
        let have = groups(&s);
        let bad: Vec<F> = groups(&a).keys().filter(|x| !have.contains_key(x)).cloned().collect();
        let mut touched = false;
        if self.lk_spec(i).is_some() {
            for x in v.iter_mut() {
                if bad.contains(x) {
                    *x = s[0];
                    touched = true;
                }
            }
        }
        if touched {
            v.sort();
        }
        self.lk[i].a = a;
        self.lk[i].s = s;
    }

    fn lookup_permuted(&mut self, a: &mut Vec<F>, s: &mut Vec<F>) {
        let i = self.permuted;
        self.permuted += 1;
        let spec = match self.lk_spec(i) {
            Some(s) => s,
            None => return,
        };
        if i >= self.lk.len() || self.lk[i].a.is_empty() {
            self.missing = Some("lookup not seen");
            return;
        }
        if spec.helper != Helper::Plain {
            match helper_columns(spec.helper, &self.lk[i].a, &self.lk[i].s) {
                Some((x, y)) if x.len() == a.len() && y.len() == s.len() => {
                    *a = x;
                    *s = y;
                }
                _ => self.missing = Some("no such helper columns"),
            }
            if matches!(spec.helper, Helper::First | Helper::Diff | Helper::Wrap(_)) {
                let n = self.c.n();
                let mut p = Prng::derive(self.c.u as u64, "tail");
                let mut v = vec![];
                for r in self.c.u..n {
                    v.push(match spec.helper {
                        _ if r != n - 1 => p.field(),
                        Helper::Wrap(false) => a[0] + F::one(),
                        Helper::Wrap(true) => a[0] - F::one(),
                        _ => a[0],
                    });
                    v.push(p.field());
                }
                force_fields(&v);
            }
        }
        self.lk[i].ap = a.clone();
        self.lk[i].sp = s.clone();
    }

    fn lookup_constructed(&mut self, z: &mut Vec<F>) {
        let i = self.made;
        self.made += 1;
        let u = self.c.u;
        while self.lk.len() <= i {
            self.lk.push(LkState::default());
        }
        self.lk[i].z = z.clone();
        if z.len() > u && self.lk_spec(i).is_some() {
            z[u] = F::one();
        }
    }

    fn lookup_committed(&mut self, o: &mut Vec<Wpo>) {
        let ch = challenges_so_far();
        let u = self.c.u;
        let (beta, gamma) = match ch.len() {
            0..=2 => (F::zero(), F::zero()),
            _ => (ch[1], ch[2]),
        };
        let mult = |l: &LkState, r: usize| (l.ap[r] + beta) * (l.sp[r] + gamma);
        let mut new: BTreeMap<usize, Vec<F>> = BTreeMap::new();
        for sp in self.spec.lk.clone() {
            let i = sp.lookup;
            if i >= o.len() || i >= self.lk.len() || self.lk[i].z.len() != u + 1 {
                self.missing = Some("no such lookup");
                return;
            }
            if let Chain::Twin(r1, _, neg) = sp.chain {
                // the other cheated lookup
                let j = match self.spec.lk.iter().find(|l| l.lookup != i) {
                    Some(l) => l.lookup,
                    None => {
                        self.missing = Some("no second lookup");
                        return;
                    }
                };
                if j >= self.lk.len() || self.lk[j].z.len() != u + 1 || u < 2 || self.lk[j].ap.len() != u || self.lk[i].ap.len() != u {
                    self.missing = Some("no second lookup");
                    return;
                }
                let (r1, r2) = (r1 % (u - 1), 0);
                let r2 = r1 + 1 + r2 % (u - 1 - r1).max(1);
                let (li, lj) = (&self.lk[i], &self.lk[j]);
                let amt = |l: &LkState, r: usize| mult(l, r) * l.z[r + 1];
                let (ai1, ai2, aj1, aj2) = (amt(li, r1), amt(li, r2), amt(lj, r1), amt(lj, r2));
                let (ei, ej) = (inv(li.z[u]), inv(lj.z[u]));
                let sg = if neg { -F::one() } else { F::one() };
                // ai1 (s-1) + sg aj1 (t-1) = 0 ; ai2 (ei - s) + sg aj2 (ej - t) = 0
                let det = -ai1 * sg * aj2 + sg * aj1 * ai2;
                if det.is_zero() {
                    self.missing = Some("twins have no solution");
                    return;
                }
                let (b1, b2) = (ai1 + sg * aj1, -(ai2 * ei + sg * aj2 * ej));
                // [ai1, sg aj1; -ai2, -sg aj2] [s t] = [b1 b2]
                let det = inv(det);
                let s = (b1 * (-sg * aj2) - sg * aj1 * b2) * det;
                let t = (ai1 * b2 + ai2 * b1) * det;
                for (k, m) in [(i, s), (j, t)] {
                    let l = &self.lk[k];
                    let mut z = vec![l.z.clone()];
                    scale(&mut z, Loc::Prod(0, r1), m);
                    if m.is_zero() {
                        self.missing = Some("twins have no solution");
                        return;
                    }
                    scale(&mut z, Loc::Prod(0, r2), inv(m * l.z[u]));
                    new.insert(k, z.remove(0));
                }
                break;
            }
            let l = &self.lk[i];
            let m = |_: usize, r: usize| if l.ap.len() > r { mult(l, r) } else { F::one() };
            match cheat(&vec![l.z.clone()], sp.chain, u, &m) {
                None => {
                    self.missing = Some("no such place in the running product");
                    return;
                }
                Some(mut z) => {
                    new.insert(i, z.remove(0));
                }
            }
        }
        for (i, z) in new {
            let mut e = z;
            e.extend_from_slice(&o[i].evals()[u + 1..]);
            o[i] = rebuild(o[i].get_label(), &e, &[], Some(&o[i]), self.extended);
        }
    }

    fn slot(&self, i: usize) -> Option<Slot> {
        let s = self.model.as_ref()?.slots();
        if s.is_empty() {
            return None;
        }
        Some(s[i % s.len()])
    }

    fn evals(&mut self, v: &mut [&mut dyn Any]) {
        let mut ev: Evals = vec![];
        with_evals(v, &mut |get| {
            ev = (0..9u8).map(|k| get(k).to_vec()).collect();
        });
        if ev.is_empty() {
            self.missing = Some("claims not seen");
            return;
        }
        self.truth = Some(ev.clone());
        if self.spec.forge == Forge::None {
            return;
        }
        let (m, ch) = match (self.model.clone(), Chal::from(&challenges_so_far())) {
            (Some(m), Some(c)) => (m, c),
            _ => {
                self.missing = Some("no model");
                return;
            }
        };
        if !m.shape_ok(&ev) {
            self.missing = Some("claims not understood");
            return;
        }
        let bump = |e: &mut Evals, s: Slot, d: F| e[s.0 as usize][s.1] += d;
        let mut new = ev.clone();
        let ok = match self.spec.forge {
            Forge::None => true,
            Forge::Shift(i) => self.slot(i).map(|s| bump(&mut new, s, F::one())).is_some(),
            Forge::Solve(i) => (|| {
                let s = self.slot(i)?;
                let d = m.solve(&new, &ch, s)?;
                bump(&mut new, s, d);
                Some(())
            })()
            .is_some(),
            Forge::Move(i, j) | Forge::Folded(i, j, _) => (|| {
                let s = self.slot(i)?;
                bump(&mut new, s, F::one());
                let t = self.slot(j)?;
                if s == t {
                    return None;
                }
                if !m.residual(&new, &ch).is_zero() {
                    let d = m.solve(&new, &ch, t)?;
                    bump(&mut new, t, d);
                }
                Some(())
            })()
            .is_some(),
            Forge::Kin(i, j) => (|| {
                let s = self.slot(i)?;
                let at = |t: Slot, d: F| {
                    let mut e = new.clone();
                    bump(&mut e, t, d);
                    e
                };
                let kin: Vec<Slot> = m.slots().into_iter().filter(|t| t.0 == s.0 && *t != s).collect();
                if kin.is_empty() || j % 4 == 0 {
                    let d = crate::roots::root(&|d| m.residual(&at(s, d), &ch)).filter(|d| !d.is_zero())?;
                    bump(&mut new, s, d);
                    return Some(());
                }
                let t = kin[(j / 4) % kin.len()];
                bump(&mut new, s, F::one());
                if !m.residual(&new, &ch).is_zero() {
                    let d = m.solve(&new, &ch, t)?;
                    bump(&mut new, t, d);
                }
                Some(())
            })()
            .is_some(),
            Forge::Rewind(i, j) => self.rewind(&m, &ch, &mut new, i, j).is_some(),
            Forge::Across(i, j) => self.across(&m, &ch, &mut new, i, j).is_some(),
            Forge::Equal(i, j) => self.equal(&m, &ch, &mut new, i, j).is_some(),
        };
        if !ok {
            self.missing = Some("claims cannot be balanced");
            return;
        }
        with_evals(v, &mut |get| {
            for k in 0..9u8 {
                get(k).copy_from_slice(&new[k as usize]);
            }
        });
        self.claims = Some(new);
    }

    /// Changes of claims that an opening argument with the earlier x1 does not
    /// see: two slots of one opening set at one point.
    fn unseen_within(&self, m: &Model) -> Option<Vec<Vec<(Slot, F)>>> {
        let x1 = *self.earlier.get(5)?;
        let mut out = vec![];
        for (rots, os) in m.sets() {
            for rot in rots {
                for a in 1..os.len() {
                    let b = a - 1;
                    if let (Some(sa), Some(sb)) = (m.oracles[os[a]].slots.get(&rot), m.oracles[os[b]].slots.get(&rot)) {
                        out.push(vec![(*sa, F::one()), (*sb, -x1)]);
                    }
                }
            }
        }
        Some(out)
    }

    /// The same with the earlier x2: two opening sets that share a point,
    /// weighted so that the poles at that point cancel.
    fn unseen_across(&self, m: &Model, ch: &Chal, j: usize) -> Option<Vec<Vec<(Slot, F)>>> {
        let (x1, x2) = (*self.earlier.get(5)?, *self.earlier.get(6)?);
        let sets = m.sets();
        let mut out = vec![];
        for a in 0..sets.len() {
            for b in 0..a {
                for rot in sets[a].0.intersection(&sets[b].0) {
                    let weight = |k: usize| -> Option<(Slot, F)> {
                        let o = j % sets[k].1.len();
                        let s = *m.oracles[sets[k].1[o]].slots.get(rot)?;
                        let p = m.point(*rot, ch.xi);
                        let l: F = sets[k].0.iter().filter(|r| *r != rot).map(|r| p - m.point(*r, ch.xi)).product();
                        Some((s, x2.pow([k as u64]) * x1.pow([o as u64]) * inv(l)))
                    };
                    if let (Some((sa, wa)), Some((sb, wb))) = (weight(a), weight(b)) {
                        out.push(vec![(sa, F::one()), (sb, -(wa * inv(wb)))]);
                    }
                }
            }
        }
        Some(out)
    }

    fn combine(&self, m: &Model, ch: &Chal, ev: &mut Evals, one: &[Vec<(Slot, F)>], two: &[Vec<(Slot, F)>], i: usize, j: usize) -> Option<()> {
        if one.is_empty() || two.is_empty() {
            return None;
        }
        for k in 0..6 {
            let d1 = &one[(i + k) % one.len()];
            let d2 = &two[(j + 3 * k) % two.len()];
            let at = |s: F| {
                let mut e = ev.clone();
                for (slot, v) in d1 {
                    e[slot.0 as usize][slot.1] += *v;
                }
                for (slot, v) in d2 {
                    e[slot.0 as usize][slot.1] += *v * s;
                }
                e
            };
            let s = if m.residual(&at(F::zero()), ch).is_zero() {
                Some(F::zero())
            } else if d1 == d2 {
                None
            } else {
                root(&|s| m.residual(&at(s), ch))
            };
            if let Some(s) = s {
                let e = at(s);
                if e != *ev {
                    *ev = e;
                    return Some(());
                }
            }
        }
        None
    }

    fn rewind(&self, m: &Model, ch: &Chal, ev: &mut Evals, i: usize, j: usize) -> Option<()> {
        let v = self.unseen_within(m)?;
        self.combine(m, ch, ev, &v, &v, i, j)
    }

    fn across(&self, m: &Model, ch: &Chal, ev: &mut Evals, i: usize, j: usize) -> Option<()> {
        let v = self.unseen_across(m, ch, i)?;
        let mut all = self.unseen_within(m)?;
        all.extend(v.iter().cloned());
        self.combine(m, ch, ev, &v, &all, i, j)
    }

    /// Changes of claims that would go unseen if the combination of columns
    /// did not tell certain of them apart.
    fn equal(&self, m: &Model, ch: &Chal, ev: &mut Evals, i: usize, j: usize) -> Option<()> {
        let sets = m.sets();
        let mut v = vec![];
        if sets.len() > 1 && i % 3 > 0 {
            // two sets, columns at the same place of each
            let mut a = (i / 3) % sets.len();
            let b = (a + 1 + (j / 3) % (sets.len() - 1)) % sets.len();
            if i % 3 == 2 && sets.len() > 2 {
                a = sets.len() - 1 - (b == sets.len() - 1) as usize;
            }
            for rot in sets[a].0.intersection(&sets[b].0) {
                let p = m.point(*rot, ch.xi);
                let rest = |k: usize| -> F {
                    sets[k].0.iter().filter(|r| *r != rot).map(|r| p - m.point(*r, ch.xi)).product()
                };
                let d = -(rest(b) * inv(rest(a)));
                for (&oa, &ob) in sets[a].1.iter().zip(&sets[b].1) {
                    if let (Some(sa), Some(sb)) = (m.oracles[oa].slots.get(rot), m.oracles[ob].slots.get(rot)) {
                        v.push(vec![(*sa, F::one()), (*sb, d)]);
                    }
                }
            }
        } else {
            // one set, columns some places apart
            let (rots, os) = &sets[(i / 3) % sets.len()];
            if os.len() < 2 {
                return None;
            }
            let by = 1 + (j / 3) % (os.len() - 1);
            for rot in rots {
                for a in by..os.len() {
                    if let (Some(sa), Some(sb)) = (m.oracles[os[a]].slots.get(rot), m.oracles[os[a - by]].slots.get(rot)) {
                        v.push(vec![(*sa, F::one()), (*sb, -F::one())]);
                    }
                }
            }
        }
        if v.is_empty() {
            return None;
        }
        // one direction alone, then two together
        for k in 0..3 {
            let d = v[(j + k) % v.len()].clone();
            let at = |s: F| {
                let mut e = ev.clone();
                for (slot, c) in &d {
                    e[slot.0 as usize][slot.1] += *c * s;
                }
                e
            };
            if let Some(s) = root(&|s| m.residual(&at(s), ch)) {
                if !s.is_zero() {
                    *ev = at(s);
                    return Some(());
                }
            }
        }
        self.combine(m, ch, ev, &v, &v, i, j)
    }

    fn q(&mut self, q: &mut Vec<F>) {
        let (i, j, how) = match self.spec.forge {
            Forge::Folded(i, j, h) => (i, j, h),
            _ => return,
        };
        let mut total = F::zero();
        let mut ws = vec![];
        let (m, truth, claims) = match (&self.model, &self.truth, &self.claims) {
            (Some(m), Some(t), Some(c)) => (m.clone(), t.clone(), c.clone()),
            _ => return,
        };
        let ch = challenges_so_far();
        let c = match Chal::from(&ch) {
            Some(c) if c.multi.len() >= 3 => c,
            _ => return,
        };
        let before = q.clone();
        let (x1, x2, x3) = (c.multi[0], c.multi[1], c.multi[2]);
        for (k, (rots, os)) in m.sets().iter().enumerate() {
            if k >= q.len() {
                break;
            }
            // change of the claimed low-degree part at x3
            let pts: Vec<F> = rots.iter().map(|&r| m.point(r, c.xi)).collect();
            let mut d = F::zero();
            let mut z = F::one();
            for (j, r) in rots.iter().enumerate() {
                z *= x3 - pts[j];
                let mut v = F::zero();
                let mut p = F::one();
                for &o in os {
                    let s = m.oracles[o].slots[r];
                    v += p * (claims[s.0 as usize][s.1] - truth[s.0 as usize][s.1]);
                    p *= x1;
                }
                for (l, &pt) in pts.iter().enumerate() {
                    if l != j {
                        v *= (x3 - pt) * inv(pts[j] - pt);
                    }
                }
                d += v;
            }
            let w = x2.pow([k as u64]) * inv(z);
            ws.push(w);
            total += w * d;
            if d.is_zero() || how == 4 {
                continue;
            }
            let g = match how {
                0 => F::zero(),
                1 => F::one(),
                h => {
                    let x4 = match self.earlier.get(8) {
                        Some(x) => *x,
                        None => {
                            self.missing = Some("no earlier attempt");
                            return;
                        }
                    };
                    x4.pow([k as u64 + if h == 2 { 1 } else { 0 }])
                }
            };
            let den = w + g;
            if den.is_zero() {
                continue;
            }
            q[k] += w * d * inv(den);
        }
        if how == 4 && ws.len() > 1 {
            let a = i % ws.len();
            let b = (a + 1 + j % (ws.len() - 1)) % ws.len();
            let e = total * inv(ws[a] - ws[b]);
            q[a] += e;
            q[b] -= e;
        }
        self.q_evals = Some((before, q.clone()));
    }
}

// --------------------------------------------------------------- execution

/// One proving session of a deviating prover.
fn attempt<P: Backend>(
    w: &W<P>,
    node: u8,
    a: &Assign,
    stmt: usize,
    rng: &RngSpec,
    st: State,
) -> Option<(Outcome<Result<Proof<P>, String>>, Log, State)> {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let mut p = take_prover(w, node, circuit).ok()?;
    let st = Rc::new(RefCell::new(st));
    let s2 = st.clone();
    let tap: Tap = Box::new(move |site, v| s2.borrow_mut().tap(site, v));
    let mut plan = Plan::default();
    if let Some((k @ 12..=16, more)) = st.borrow().spec.parts {
        plan.pc_fault = Some((k as u64 - 11, PcFault::Count(more)));
    }
    let (o, log) = session(&plan, vec![], || p.prove(u64::MAX, a, true, rng, Some(tap)));
    zero_over_k::sim::set_callback(None);
    put_prover(w, node, circuit, p);
    let mut st = Rc::try_unwrap(st).ok()?.into_inner();
    if plan.pc_fault.is_some() {
        // with nothing to commit to there is nothing to leave out
        let k = plan.pc_fault.unwrap().0;
        st.parts_done = log.commits.iter().any(|r| r.call == k);
    }
    let mut wm = w.borrow_mut();
    wm.bump("session.deviating_prove");
    wm.add("seam.crossings", log.ops);
    wm.add("seam.backend_calls", log.pc_calls);
    wm.add("seam.random_draws", log.rng_draws);
    drop(wm);
    Some((o, log, st))
}

thread_local! {
    static MODELS: RefCell<BTreeMap<usize, Option<Rc<Model>>>> = RefCell::new(BTreeMap::new());
}

fn model_for<P: Backend>(w: &W<P>, base: usize, inst: &[Col]) -> Option<Rc<Model>> {
    let known = MODELS.with(|m| m.borrow().get(&base).cloned());
    let m = match known {
        Some(m) => m?,
        None => {
            let r = fit(w, base);
            MODELS.with(|m| m.borrow_mut().insert(base, r.clone()));
            r?
        }
    };
    let mut n = Model::new(&m.c, inst, m.nq * m.c.n(), m.nz, m.chunk);
    n.inst = inst.to_vec();
    Some(Rc::new(n))
}

fn fit<P: Backend>(w: &W<P>, base: usize) -> Option<Rc<Model>> {
    let (o, log) = prove_logged(w, 0, base, &RngSpec::good(77), true, None)?;
    let mut p = o.done()?.ok()?;
    let ch = Chal::from(&log.challenges())?;
    let circuit = w.borrow().sc.stmts[base].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let a = w.borrow().assigns[base].clone();
    let e = extended(w, base)?;
    let m = fit_model::<P>(&c, &a.i, e, &mut p, &ch, &|m, ev| m.residual(ev, &ch).is_zero());
    w.borrow_mut().bump(if m.is_some() { "model.explains_proof" } else { "skipped.model_does_not_fit" });
    m.map(Rc::new)
}

pub fn run<P: Backend>(w: &W<P>, node: u8, stmt: usize, rng: &RngSpec, spec: &Spec) {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let mut a: Assign = (*w.borrow().assigns[stmt]).clone();
    if let Some(seed) = spec.roots {
        match search(&c, &a, seed) {
            Some(b) => {
                w.borrow_mut().bump("attack.assignment_good_for_library_only");
                a = b;
            }
            None => {
                let mut w = w.borrow_mut();
                w.bump("attack.no_assignment_good_for_library_only");
                w.judged();
                w.event("no gap between library's gates and their meaning", &[]);
                return;
            }
        }
    }
    let viol = c.violations(&a);
    let prop = w.borrow().prop().to_string();
    let relevant = match prop.as_str() {
        "C03" => viol.iter().any(|v| matches!(v, Violation::Gate { .. })),
        "C04" => viol.iter().any(|v| matches!(v, Violation::Copy { .. })),
        "C05" => viol.iter().any(|v| matches!(v, Violation::Lookup { .. })),
        _ => true,
    };
    if !relevant {
        w.borrow_mut().bump("skipped.assignment_is_good");
        return;
    }
    let ext = match extended(w, stmt) {
        Some(e) => e,
        None => return,
    };
    let model = match (spec.forge, spec.base) {
        (Forge::None, _) | (_, None) => None,
        (_, Some(b)) => model_for(w, b, &a.i),
    };
    let mk = |earlier: Vec<F>, spec: Spec| State {
        c: c.clone(),
        a: a.clone(),
        x: c.fixed_values(),
        t: c.table_values(),
        spec,
        extended: ext,
        model: model.clone(),
        earlier,
        sorted: 0,
        permuted: 0,
        made: 0,
        lk: vec![],
        perm: vec![],
        tail: vec![],
        truth: None,
        claims: None,
        q_evals: None,
        missing: None,
        seen: vec![],
        parts_done: false,
    };
    let mut earlier = vec![];
    let two_pass = matches!(spec.forge, Forge::Rewind(..) | Forge::Across(..))
        || matches!(spec.forge, Forge::Folded(_, _, h) if h == 2 || h == 3);
    if two_pass {
        let mut first = spec.clone();
        first.forge = match spec.forge {
            Forge::Folded(i, j, _) => Forge::Move(i, j),
            _ => Forge::None,
        };
        match attempt(w, node, &a, stmt, rng, mk(vec![], first)) {
            Some((_, log, _)) => earlier = log.challenges(),
            None => return,
        }
    }
    let (o, _log, st) = match attempt(w, node, &a, stmt, rng, mk(earlier, spec.clone())) {
        Some(x) => x,
        None => return,
    };
    let kind = kind_of(spec);
    if let Some(m) = st.missing {
        let mut w = w.borrow_mut();
        w.bump(&format!("skipped.{}", m));
        w.event(&format!("attack {} impossible", kind), &[]);
        return;
    }
    let mut proof = match o {
        Outcome::Done(Ok(p)) => p,
        o => {
            // the library noticed by itself
            let t = match &o {
                Outcome::Panic(e) => format!("panic {}", e.chars().take(24).collect::<String>()),
                Outcome::Done(Err(e)) => format!("error {}", e.chars().take(24).collect::<String>()),
                _ => "crash".into(),
            };
            let mut w = w.borrow_mut();
            w.bump("attack.no_proof");
            w.event(&format!("attack {} -> {}", kind, t), &[]);
            return;
        }
    };
    // did the proof keep the false claims?
    let claims_false = match (&st.truth, &st.claims) {
        (Some(t), Some(c)) => t != c && evals_of::<P>(&mut proof) == *c,
        _ => false,
    };
    let _ = tamper::SCALARS;
    let inst = a.i.clone();
    let mut v = match take_verifier(w, 10, stmt) {
        Ok(v) => v,
        Err(_) => return,
    };
    v.set_instance(&inst);
    let (o, log) = session(&Plan::default(), vec![], || v.verify(proof));
    let orig = w.borrow().assigns[stmt].i.clone();
    v.set_instance(&orig);
    put_verifier(w, 10, stmt, v);
    let accepted = matches!(o, Outcome::Done(Ok(())));
    let mut wm = w.borrow_mut();
    wm.bump("session.verify");
    wm.add("seam.crossings", log.ops);
    for k in kind.split(' ') {
        wm.bump(&format!("attack.{}", k));
        if !k.ends_with("=Plain") && !k.ends_with("=None") {
            wm.bump("fault.deviating_prover");
        }
    }
    wm.event(
        &format!("attack {} viol={} accepted={}", kind, viol.len(), accepted),
        &[],
    );
    let detail = format!(
        "deviation: {:?}; violated: {:?}",
        spec,
        viol.iter().take(3).collect::<Vec<_>>()
    );
    match prop.as_str() {
        "C03" | "C04" | "C05" => {
            wm.judged();
            if accepted {
                let class = match prop.as_str() {
                    "C03" => "proof accepted for an assignment violating a gate",
                    "C04" => "proof accepted for an assignment violating a copy constraint",
                    _ => "proof accepted for a lookup outside its table",
                };
                wm.fail(class, detail, None);
            }
        }
        "C09" if st.parts_done => {
            wm.judged();
            if let Outcome::Panic(e) = &o {
                wm.fail("verifier panics", e.clone(), None);
            } else if accepted {
                wm.fail("proof with parts missing, surplus or misplaced accepted", detail, None);
            }
        }
        "C06" if claims_false => {
            wm.judged();
            if accepted {
                wm.fail("proof with a false evaluation accepted", detail, None);
            }
        }
        _ => {}
    }
}

fn kind_of(s: &Spec) -> String {
    let chain = |c: &Chain| {
        let t = format!("{:?}", c);
        t.chars().filter(|c| c.is_alphabetic() || "(,)".contains(*c)).collect::<String>()
    };
    let mut k = format!("perm={}", chain(&s.perm));
    for l in &s.lk {
        let h = format!("{:?}", l.helper);
        let h: String = h.chars().take_while(|c| c.is_alphabetic()).collect();
        k += &format!(" lookup={}/{}", h, chain(&l.chain));
    }
    let f = format!("{:?}", s.forge);
    let f: String = f.chars().take_while(|c| c.is_alphabetic()).collect();
    k += &format!(" forge={}", f);
    if let Some((p, more)) = s.parts {
        k += &format!(" parts={}{}", if more { "+" } else { "-" }, p);
    }
    if s.roots.is_some() {
        k += " roots";
    }
    k
}

// -------------------------------------------------- gates as the library sees

struct Lib {
    vos: Vec<crate::node::AnyVo>,
    names: BTreeMap<(u8, String), usize>,
    rows: BTreeMap<F, usize>,
    omegas: Vec<F>,
}

fn lib(c: &Circuit, a: &Assign) -> Option<Lib> {
    let c = c.clone();
    let a = a.clone();
    let (o, _) = session(&Plan::default(), vec![], move || {
        let mut cols = prover_columns(&c, &a);
        let v = configure(&c, &mut cols.w, &mut cols.i, &mut cols.x, &mut cols.t)?;
        let mut names = BTreeMap::new();
        for (k, w) in c.witness.iter().enumerate() {
            names.insert((0u8, w.label.clone()), k);
        }
        for (k, w) in c.instance.iter().enumerate() {
            names.insert((1u8, w.label.clone()), k);
        }
        for (k, w) in c.fixed.iter().enumerate() {
            names.insert((2u8, w.label.clone()), k);
        }
        let omegas: Vec<F> = c.domain().elements().collect();
        let rows = omegas.iter().enumerate().map(|(i, e)| (*e, i)).collect();
        Ok::<_, String>(Lib { vos: v.vos, names, rows, omegas })
    });
    o.done()?.ok()
}

impl Lib {
    fn gate(&self, g: usize, row: usize, a: &Assign, x: &[Col], cells: Option<&RefCell<Vec<(Ty, usize, usize)>>>) -> Option<F> {
        let e = self.vos.get(g)?.get_expression().ok()?;
        let bad = RefCell::new(false);
        let v = e.evaluate(
            &|c| c,
            &|q| {
                let k = match q.oracle_type {
                    OracleType::Witness => 0u8,
                    OracleType::Instance => 1,
                    OracleType::Fixed => 2,
                };
                let p = q.rotation.compute_evaluation_point(self.omegas[row], &self.omegas);
                match (self.names.get(&(k, q.label.clone())), self.rows.get(&p)) {
                    (Some(&c), Some(&r)) => {
                        let t = [Ty::W, Ty::I, Ty::X][k as usize];
                        if let Some(l) = cells {
                            l.borrow_mut().push((t, c, r));
                        }
                        match t {
                            Ty::W => a.w[c][r],
                            Ty::I => a.i[c][r],
                            Ty::X => x[c][r],
                        }
                    }
                    _ => {
                        *bad.borrow_mut() = true;
                        F::zero()
                    }
                }
            },
            &|v: F| -v,
            &|a: F, b: F| a + b,
            &|a: F, b: F| a * b,
            &|a: F, s: F| a * s,
        );
        if *bad.borrow() {
            None
        } else {
            Some(v)
        }
    }

    fn all(&self, c: &Circuit, a: &Assign, x: &[Col]) -> bool {
        let rows = c.enforced();
        (0..c.gates.len()).all(|g| rows.iter().all(|&r| self.gate(g, r, a, x, None).map_or(false, |v| v.is_zero())))
    }
}

/// An assignment that satisfies the gates as the library has them, but not as
/// the circuit means them, with wiring and lookups intact.
fn search(c: &Rc<Circuit>, a0: &Assign, seed: u64) -> Option<Assign> {
    let l = lib(c, a0)?;
    let x = c.fixed_values();
    let mut p = Prng::derive(seed, "roots");
    let rows = c.enforced();
    if c.gates.is_empty() || rows.is_empty() {
        return None;
    }
    let good = |a: &Assign| {
        let v = c.violations(a);
        !v.is_empty() && v.iter().all(|v| matches!(v, Violation::Gate { .. })) && l.all(c, a, &x)
    };
    let cell = |a: &mut Assign, t: Ty, k: usize, r: usize, d: F| match t {
        Ty::W => a.w[k][r] += d,
        _ => a.i[k][r] += d,
    };
    for _ in 0..6 {
        let g = p.below(c.gates.len());
        let row = *p.pick(&rows);
        let cells = RefCell::new(vec![]);
        l.gate(g, row, a0, &x, Some(&cells))?;
        // cells the gate means to read, too
        let mut cs: Vec<(Ty, usize, usize)> =
            cells.into_inner().into_iter().filter(|q| q.0 != Ty::X).collect();
        if let Gate::Pre { kind, w, i, .. } = &c.gates[g] {
            let (nw, ni, _) = kind.widths();
            for j in 0..nw {
                cs.push((Ty::W, w + j, row));
            }
            for j in 0..ni {
                cs.push((Ty::I, i + j, row));
            }
        }
        cs.sort();
        cs.dedup();
        if cs.is_empty() {
            continue;
        }
        let k = p.below(cs.len());
        let (t, col, r0) = cs[k];
        let off = (r0 + c.n() - row) % c.n();
        // one cell at this row
        let at = |d: F| {
            let mut a = a0.clone();
            cell(&mut a, t, col, r0, d);
            a
        };
        let mut ds: Vec<F> = (1..=8).flat_map(|k| [f(k), -f(k)]).collect();
        ds.push(p.nonzero());
        let cur = match t {
            Ty::W => a0.w[col][r0],
            _ => a0.i[col][r0],
        };
        ds.extend((0..8).map(|k| f(k) - cur));
        for d in ds {
            if d.is_zero() {
                continue;
            }
            let a = at(d);
            if l.gate(g, row, &a, &x, None).map_or(false, |v| v.is_zero()) && good(&a) {
                return Some(a);
            }
        }
        if let Some(d) = root(&|d| l.gate(g, row, &at(d), &x, None).unwrap_or(F::one())) {
            let a = at(d);
            if good(&a) {
                return Some(a);
            }
        }
        // two cells: one moved, another one solved for
        if cs.len() > 1 {
            let (t2, c2, r2) = cs[(k + 1 + p.below(cs.len() - 1)) % cs.len()];
            let mut b = a0.clone();
            let d0 = if p.chance(1, 2) { p.nonzero() } else { f(1 + p.below(3) as u64) };
            cell(&mut b, t2, c2, r2, d0);
            let at = |d: F| {
                let mut a = b.clone();
                cell(&mut a, t, col, r0, d);
                a
            };
            if let Some(d) = root(&|d| l.gate(g, row, &at(d), &x, None).unwrap_or(F::one())) {
                let a = at(d);
                if good(&a) {
                    return Some(a);
                }
            }
        }
        // the gate may be off on every row: solve all of them
        if !l.all(c, a0, &x) {
            let mut a = a0.clone();
            for _ in 0..2 {
                for &row in &rows {
                    let r = (row + off) % c.n();
                    let v = l.gate(g, row, &a, &x, None).unwrap_or(F::one());
                    if v.is_zero() {
                        continue;
                    }
                    let d = root(&|d| {
                        let mut b = a.clone();
                        cell(&mut b, t, col, r, d);
                        l.gate(g, row, &b, &x, None).unwrap_or(F::one())
                    });
                    match d {
                        Some(d) => cell(&mut a, t, col, r, d),
                        None => break,
                    }
                }
            }
            if good(&a) {
                return Some(a);
            }
        }
    }
    None
}
