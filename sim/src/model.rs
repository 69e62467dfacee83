//! Reference model of the argument: which value sits in which slot of a proof,
//! the identity the claimed values must satisfy, and how claims are folded into
//! one opening. Written from the protocol, and used only after it has been
//! confirmed on an honest proof of the circuit at hand.
use crate::circuit::*;
use crate::prng::inv;
use crate::F;
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, Polynomial};
use std::collections::{BTreeMap, BTreeSet};

/// (field, index) of a claimed value; fields as in `tamper::SCALARS`.
pub type Slot = (u8, usize);
/// (degree, 0 plus / 1 minus), ordered as the library orders rotations.
pub type Rot = (usize, u8);

/// The claimed values, by field 0..9.
pub type Evals = Vec<Vec<F>>;

#[derive(Clone, Debug)]
pub struct Oracle {
    pub kind: Kind,
    pub label: String,
    pub slots: BTreeMap<Rot, Slot>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    W(usize),
    APrime(usize),
    SPrime(usize),
    LookupZ(usize),
    Quotient(usize),
    Z(usize),
    X(usize),
    T(usize),
    Sigma(usize),
    QBlind,
}

pub struct Chal {
    pub theta: F,
    pub beta: F,
    pub gamma: F,
    pub alpha: F,
    pub xi: F,
    pub multi: Vec<F>,
}

impl Chal {
    pub fn from(c: &[F]) -> Option<Chal> {
        if c.len() < 5 {
            return None;
        }
        Some(Chal {
            theta: c[0],
            beta: c[1],
            gamma: c[2],
            alpha: c[3],
            xi: c[4],
            multi: c[5..].to_vec(),
        })
    }
}

pub struct Model {
    pub c: Circuit,
    pub inst: Vec<Col>,
    pub oracles: Vec<Oracle>,
    pub chunk: usize,
    pub nz: usize,
    pub nq: usize,
    pub deltas: Vec<F>,
    pub sigma: Vec<Col>,
    omega: F,
}

pub fn rot_of(r: i32) -> Rot {
    if r >= 0 {
        (r as usize, 0)
    } else {
        ((-r) as usize, 1)
    }
}

fn point_label(r: Rot) -> String {
    match r {
        (0, _) => "xi".to_string(),
        (d, 0) => format!("omega_{}_xi", d),
        (d, _) => format!("omega_-{}_xi", d),
    }
}

fn spread(field: u8, list: &[(String, BTreeSet<Rot>)]) -> Vec<BTreeMap<Rot, Slot>> {
    let mut order: Vec<(String, String, usize, Rot)> = vec![];
    for (k, (l, rots)) in list.iter().enumerate() {
        for &r in rots {
            order.push((l.clone(), point_label(r), k, r));
        }
    }
    order.sort();
    let mut out = vec![BTreeMap::new(); list.len()];
    for (i, (_, _, k, r)) in order.into_iter().enumerate() {
        out[k].insert(r, (field, i));
    }
    out
}

impl Model {
    pub fn new(
        c: &Circuit,
        inst: &[Col],
        extended: usize,
        nz: usize,
        chunk: usize,
    ) -> Model {
        let n = c.n();
        let mut wq: Vec<BTreeSet<Rot>> = vec![BTreeSet::new(); c.witness.len()];
        let mut xq: Vec<BTreeSet<Rot>> = vec![BTreeSet::new(); c.fixed.len()];
        let mut tq: Vec<BTreeSet<Rot>> = vec![BTreeSet::new(); c.tables.len()];
        let mut reg = |t: Ty, i: usize, r: i32| match t {
            Ty::W => {
                wq[i].insert(rot_of(r));
            }
            Ty::X => {
                xq[i].insert(rot_of(r));
            }
            Ty::I => {}
        };
        for g in &c.gates {
            match g {
                Gate::Out { sel, out, f, .. } => {
                    reg(out.0, out.1, out.2);
                    let mut qs = vec![];
                    f.queries(&mut qs);
                    for (t, i, r) in qs {
                        reg(t, i, r);
                    }
                    if let Some(s) = sel {
                        reg(Ty::X, *s, 0);
                    }
                }
                Gate::Bits { sel, col, rot } => {
                    reg(Ty::W, *col, *rot);
                    if let Some(s) = sel {
                        reg(Ty::X, *s, 0);
                    }
                }
                Gate::Pre { kind, w, i, x } => {
                    let (a, b, d) = kind.widths();
                    for j in 0..a {
                        reg(Ty::W, w + j, 0);
                    }
                    for j in 0..b {
                        reg(Ty::I, i + j, 0);
                    }
                    for j in 0..d {
                        reg(Ty::X, x + j, 0);
                    }
                    if *kind == Pre::Delta {
                        reg(Ty::W, *w, 1);
                    }
                }
            }
        }
        for l in &c.lookups {
            for inp in &l.inputs {
                let mut qs = vec![];
                inp.ex().queries(&mut qs);
                for (t, i, r) in qs {
                    reg(t, i, r);
                }
            }
        }
        for l in &c.lookups {
            for &(t, r) in &l.table {
                tq[t].insert(rot_of(r));
            }
        }
        for &p in &c.permuted() {
            wq[p].insert((0, 0));
        }
        let mut oracles = vec![];
        let named = |labels: Vec<String>, q: Vec<BTreeSet<Rot>>| -> Vec<(String, BTreeSet<Rot>)> {
            labels.into_iter().zip(q).collect()
        };
        let wl = named(c.witness.iter().map(|x| x.label.clone()).collect(), wq);
        for (i, s) in spread(0, &wl).into_iter().enumerate() {
            oracles.push(Oracle {
                kind: Kind::W(i),
                label: wl[i].0.clone(),
                slots: s,
            });
        }
        for l in 0..c.lookups.len() {
            oracles.push(Oracle {
                kind: Kind::APrime(l),
                label: format!("lookup_a_prime_{}_poly", l),
                slots: BTreeMap::from([((0, 0), (5, 3 * l)), ((1, 1), (5, 3 * l + 1))]),
            });
            oracles.push(Oracle {
                kind: Kind::SPrime(l),
                label: format!("lookup_s_prime_{}_poly", l),
                slots: BTreeMap::from([((0, 0), (5, 3 * l + 2))]),
            });
        }
        for l in 0..c.lookups.len() {
            oracles.push(Oracle {
                kind: Kind::LookupZ(l),
                label: format!("lookup_{}_agg_poly", l),
                slots: BTreeMap::from([((0, 0), (6, 2 * l)), ((1, 0), (6, 2 * l + 1))]),
            });
        }
        let nq = extended / n;
        for i in 0..nq {
            oracles.push(Oracle {
                kind: Kind::Quotient(i),
                label: format!("quotient_chunk_{}", i),
                slots: BTreeMap::from([((0, 0), (8, i))]),
            });
        }
        let zl: Vec<(String, BTreeSet<Rot>)> = (0..nz)
            .map(|i| {
                let mut s = BTreeSet::from([(0, 0), (1, 0)]);
                if i + 1 < nz {
                    s.insert((c.u, 0));
                }
                (format!("agg_permutation_{}", i), s)
            })
            .collect();
        for (i, s) in spread(7, &zl).into_iter().enumerate() {
            oracles.push(Oracle {
                kind: Kind::Z(i),
                label: zl[i].0.clone(),
                slots: s,
            });
        }
        let xl = named(c.fixed.iter().map(|x| x.label.clone()).collect(), xq);
        for (i, s) in spread(1, &xl).into_iter().enumerate() {
            oracles.push(Oracle {
                kind: Kind::X(i),
                label: xl[i].0.clone(),
                slots: s,
            });
        }
        let tl = named(c.tables.iter().map(|x| x.label.clone()).collect(), tq);
        for (i, s) in spread(2, &tl).into_iter().enumerate() {
            oracles.push(Oracle {
                kind: Kind::T(i),
                label: tl[i].0.clone(),
                slots: s,
            });
        }
        for j in 0..c.permuted().len() {
            oracles.push(Oracle {
                kind: Kind::Sigma(j),
                label: format!("sigma_{}", j),
                slots: BTreeMap::from([((0, 0), (3, j))]),
            });
        }
        oracles.push(Oracle {
            kind: Kind::QBlind,
            label: "q_blind".into(),
            slots: BTreeMap::from([((0, 0), (4, 0))]),
        });
        Model {
            omega: c.domain().element(1),
            deltas: c.deltas(),
            sigma: c.sigma_columns(),
            c: c.clone(),
            inst: inst.to_vec(),
            oracles,
            chunk,
            nz,
            nq,
        }
    }

    /// Chunk sizes of the permutation argument that give this many chunks.
    pub fn chunk_candidates(cols: usize, nz: usize) -> Vec<usize> {
        if nz == 0 {
            return vec![1];
        }
        (1..=cols.max(1)).filter(|m| (cols + m - 1) / m == nz).collect()
    }

    pub fn slots(&self) -> Vec<Slot> {
        self.oracles
            .iter()
            .flat_map(|o| o.slots.values().cloned())
            .collect()
    }

    pub fn shape_ok(&self, e: &Evals) -> bool {
        let mut n = vec![0usize; 9];
        for (f, i) in self.slots() {
            n[f as usize] = n[f as usize].max(i + 1);
        }
        (0..9).all(|f| e[f].len() == n[f])
    }

    pub fn point(&self, r: Rot, xi: F) -> F {
        let w = self.omega.pow([r.0 as u64]);
        xi * if r.1 == 0 { w } else { inv(w) }
    }

    fn get(&self, e: &Evals, k: Kind, r: i64) -> F {
        let n = self.c.n() as i64;
        let o = self.oracles.iter().find(|o| o.kind == k).unwrap();
        for (rot, s) in &o.slots {
            let v = if rot.1 == 0 { rot.0 as i64 } else { -(rot.0 as i64) };
            if (v - r).rem_euclid(n) == 0 {
                return e[s.0 as usize][s.1];
            }
        }
        F::zero()
    }

    pub fn lagrange(&self, row: usize, x: F) -> F {
        let d = self.c.domain();
        let n = F::from(self.c.n() as u64);
        let w = d.element(row);
        d.evaluate_vanishing_polynomial(x) * w * inv(n * (x - w))
    }

    /// The combined constraint minus the quotient side; zero for good claims.
    pub fn residual(&self, e: &Evals, ch: &Chal) -> F {
        let c = &self.c;
        let xi = ch.xi;
        let inst: Vec<crate::Poly> =
            self.inst.iter().map(|v| crate::node::interp(c, v)).collect();
        let at = |t: Ty, i: usize, r: i32| -> F {
            match t {
                Ty::W => self.get(e, Kind::W(i), r as i64),
                Ty::X => self.get(e, Kind::X(i), r as i64),
                Ty::I => inst[i].evaluate(&self.point(rot_of(r), xi)),
            }
        };
        let mut acc = F::zero();
        let mut ap = F::one();
        for g in &c.gates {
            acc += ap * c.gate_eval(g, &at);
            ap *= ch.alpha;
        }
        let l0 = self.lagrange(0, xi);
        let lu = self.lagrange(c.u, xi);
        let zk = F::one() - (lu + e[4][0]);
        let perm = c.permuted();
        let mut last_alpha = ap;
        if self.nz > 0 {
            let z = |i: usize, r: i64| self.get(e, Kind::Z(i), r);
            let mut add = |v: F| {
                acc += ap * v;
                last_alpha = ap;
                ap *= ch.alpha;
            };
            add(l0 * (F::one() - z(0, 0)));
            for k in 0..self.nz {
                let cols: Vec<usize> =
                    (k * self.chunk..((k + 1) * self.chunk).min(perm.len())).collect();
                let mut a = z(k, 1);
                let mut b = z(k, 0);
                for j in cols {
                    let w = at(Ty::W, perm[j], 0);
                    a *= w + ch.beta * e[3][j] + ch.gamma;
                    b *= w + ch.beta * self.deltas[j] * xi + ch.gamma;
                }
                add(zk * (a - b));
            }
            for k in 0..self.nz - 1 {
                add(l0 * (z(k + 1, 0) - z(k, c.u as i64)));
            }
            let zl = z(self.nz - 1, 0);
            add(lu * (zl * zl - zl));
        }
        let mut ap = last_alpha;
        for (li, l) in c.lookups.iter().enumerate() {
            let mut a = F::zero();
            let mut s = F::zero();
            let mut tp = F::one();
            for (inp, &(t, r)) in l.inputs.iter().zip(&l.table) {
                a += tp * inp.ex().eval(&at);
                s += tp * self.get(e, Kind::T(t), r as i64);
                tp *= ch.theta;
            }
            let a1 = self.get(e, Kind::APrime(li), 0);
            let ap1 = self.get(e, Kind::APrime(li), -1);
            let s1 = self.get(e, Kind::SPrime(li), 0);
            let z = self.get(e, Kind::LookupZ(li), 0);
            let zw = self.get(e, Kind::LookupZ(li), 1);
            let terms = [
                l0 * (F::one() - z),
                zk * (zw * (a1 + ch.beta) * (s1 + ch.gamma)
                    - z * (a + ch.beta) * (s + ch.gamma)),
                lu * (z * z - z),
                l0 * (a1 - s1),
                zk * (a1 - s1) * (a1 - ap1),
            ];
            for t in terms {
                acc += ap * t;
                ap *= ch.alpha;
            }
        }
        acc - self.quotient_factor(xi, |i| e[8][i])
    }

    pub fn zh_at(&self, xi: F) -> F {
        self.c.z_h().evaluate(&xi)
    }

    fn quotient_factor(&self, xi: F, q: impl Fn(usize) -> F) -> F {
        let xn = xi.pow([self.c.n() as u64]);
        let mut p = F::one();
        let mut acc = F::zero();
        for i in 0..self.nq {
            acc += p * q(i);
            p *= xn;
        }
        acc * self.zh_at(xi)
    }

    /// Change of a slot that makes the residual vanish, if it has one. The
    /// residual is a polynomial in the slot; its degree is found by fitting.
    pub fn solve(&self, e: &Evals, ch: &Chal, s: Slot) -> Option<F> {
        // evaluate at small offsets, interpolate, look for a root if linear
        let f = |d: F| {
            let mut e2 = e.clone();
            e2[s.0 as usize][s.1] += d;
            self.residual(&e2, ch)
        };
        if f(F::zero()).is_zero() {
            return None;
        }
        crate::roots::root(&f)
    }

    /// Opening sets in the order in which the protocol folds them.
    pub fn sets(&self) -> Vec<(BTreeSet<Rot>, Vec<usize>)> {
        let mut m: BTreeMap<BTreeSet<Rot>, Vec<usize>> = BTreeMap::new();
        for (i, o) in self.oracles.iter().enumerate() {
            m.entry(o.slots.keys().cloned().collect()).or_default().push(i);
        }
        m.into_iter().collect()
    }

    /// Value at which the folded polynomial must open.
    pub fn final_eval(&self, e: &Evals, q_evals: &[F], ch: &Chal) -> Option<F> {
        if ch.multi.len() < 4 {
            return None;
        }
        let (x1, x2, x3, x4) = (ch.multi[0], ch.multi[1], ch.multi[2], ch.multi[3]);
        let sets = self.sets();
        if sets.len() != q_evals.len() {
            return None;
        }
        let mut acc = F::zero();
        let mut p2 = F::one();
        let mut p4 = x4;
        for ((rots, os), &q) in sets.iter().zip(q_evals) {
            let pts: Vec<F> = rots.iter().map(|&r| self.point(r, ch.xi)).collect();
            let mut r3 = F::zero();
            let mut z = F::one();
            for (j, rot) in rots.iter().enumerate() {
                z *= x3 - pts[j];
                let mut v = F::zero();
                let mut p1 = F::one();
                for &o in os {
                    let s = self.oracles[o].slots[rot];
                    v += p1 * e[s.0 as usize][s.1];
                    p1 *= x1;
                }
                let mut l = v;
                for (k, &pt) in pts.iter().enumerate() {
                    if k != j {
                        l *= (x3 - pt) * inv(pts[j] - pt);
                    }
                }
                r3 += l;
            }
            acc += p2 * (q - r3) * inv(z) + p4 * q;
            p2 *= x2;
            p4 *= x4;
        }
        Some(acc)
    }
}
