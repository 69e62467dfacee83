//! Circuits as data: what a user of the library would write down, plus the
//! reference meaning of it (filling in an assignment, checking an assignment)
//! computed directly from the data, without the library.
use crate::prng::{f, inv, Prng};
use crate::F;
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Ty {
    W,
    I,
    X,
}

/// A constant, as a small code: 0..16 itself, 16..32 negated, else random.
pub fn val(code: u64) -> F {
    match code {
        0..=15 => f(code),
        16..=31 => -f(code - 16),
        _ => Prng::derive(code, "const").field(),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ex {
    C(u64),
    Q(Ty, usize, i32),
    Neg(Box<Ex>),
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Mul(Box<Ex>, Box<Ex>),
    Scale(Box<Ex>, u64),
}

impl Ex {
    pub fn eval(&self, q: &dyn Fn(Ty, usize, i32) -> F) -> F {
        match self {
            Ex::C(c) => val(*c),
            Ex::Q(t, i, r) => q(*t, *i, *r),
            Ex::Neg(a) => -a.eval(q),
            Ex::Add(a, b) => a.eval(q) + b.eval(q),
            Ex::Sub(a, b) => a.eval(q) - b.eval(q),
            Ex::Mul(a, b) => a.eval(q) * b.eval(q),
            Ex::Scale(a, c) => a.eval(q) * val(*c),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Ex::C(_) => 0,
            Ex::Q(..) => 1,
            Ex::Neg(a) | Ex::Scale(a, _) => a.degree(),
            Ex::Add(a, b) | Ex::Sub(a, b) => a.degree().max(b.degree()),
            Ex::Mul(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn queries(&self, out: &mut Vec<(Ty, usize, i32)>) {
        match self {
            Ex::C(_) => {}
            Ex::Q(t, i, r) => out.push((*t, *i, *r)),
            Ex::Neg(a) | Ex::Scale(a, _) => a.queries(out),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                a.queries(out);
                b.queries(out);
            }
        }
    }
}

pub fn q(t: Ty, i: usize, r: i32) -> Ex {
    Ex::Q(t, i, r)
}
pub fn add(a: Ex, b: Ex) -> Ex {
    Ex::Add(Box::new(a), Box::new(b))
}
pub fn sub(a: Ex, b: Ex) -> Ex {
    Ex::Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: Ex, b: Ex) -> Ex {
    Ex::Mul(Box::new(a), Box::new(b))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pre {
    Delta,
    XorAnd,
    Mul,
    Arith,
    Arith4,
    Rescue,
}

impl Pre {
    /// Consecutive witness, instance and fixed columns the gate reads.
    pub fn widths(self) -> (usize, usize, usize) {
        match self {
            Pre::Delta => (1, 0, 1),
            Pre::XorAnd => (4, 0, 1),
            Pre::Mul => (2, 1, 0),
            Pre::Arith => (3, 1, 5),
            Pre::Arith4 => (4, 1, 6),
            Pre::Rescue => (5, 0, 4),
        }
    }
    pub fn degree(self) -> usize {
        match self {
            Pre::Delta => 5,
            Pre::XorAnd => 3,
            Pre::Mul => 2,
            Pre::Arith => 3,
            Pre::Arith4 => 3,
            Pre::Rescue => 6,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Gate {
    /// `[sel *] (coef * out - f)`
    Out {
        sel: Option<usize>,
        out: (Ty, usize, i32),
        coef: u64,
        f: Ex,
    },
    /// `[sel *] w (w - 1)` on a witness column
    Bits { sel: Option<usize>, col: usize, rot: i32 },
    /// a ready-made gate on columns starting at these indices
    Pre { kind: Pre, w: usize, i: usize, x: usize },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Lookup {
    /// Per component: dedicated witness cell, its coefficient, and the rest of
    /// the affine input.
    pub inputs: Vec<LkIn>,
    pub table: Vec<(usize, i32)>,
    /// Use the library's ready-made configuration (requires plain inputs on
    /// columns w.. and tables t..).
    pub pre: Option<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct LkIn {
    pub col: usize,
    pub rot: i32,
    pub coef: u64,
    pub rest: Option<Ex>,
    /// Fixed column the dedicated cell is multiplied with.
    #[serde(default)]
    pub sel: Option<usize>,
}

impl LkIn {
    /// What the dedicated cell is multiplied with at a row.
    pub fn factor(&self, x: &[Col], row: usize) -> F {
        val(self.coef) * self.sel.map_or(F::one(), |s| x[s][row])
    }
    pub fn ex(&self) -> Ex {
        let o = q(Ty::W, self.col, self.rot);
        let o = match self.sel {
            Some(s) => mul(q(Ty::X, s, 0), o),
            None => o,
        };
        let o = if self.coef == 1 {
            o
        } else {
            Ex::Scale(Box::new(o), self.coef)
        };
        match &self.rest {
            None => o,
            Some(r) => add(o, r.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FillKind {
    Free,
    Bits,
    Quad,
    /// The cell values come from a gate or lookup unit.
    Derived,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WCol {
    pub label: String,
    pub permute: bool,
    pub fill: FillKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ICol {
    pub label: String,
    pub derived: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct XCol {
    pub label: String,
    /// 0 zero, 1 one, 2 mixed 0/1, 3 mixed with other values, 4 random,
    /// 5 plus or minus one, 6 nonzero, 7 mostly zero 0/1, 8 small table
    /// values, 9 random table values with repeats
    pub kind: u8,
    pub seed: u64,
    pub over: Vec<(usize, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Unit {
    Col(usize),
    Gate(usize),
    Lookup(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Circuit {
    pub k: u32,
    pub u: usize,
    pub witness: Vec<WCol>,
    pub instance: Vec<ICol>,
    pub fixed: Vec<XCol>,
    pub tables: Vec<XCol>,
    pub gates: Vec<Gate>,
    pub lookups: Vec<Lookup>,
    pub copies: Vec<((usize, usize), (usize, usize))>,
    pub order: Vec<Unit>,
    pub delta_seed: Option<u64>,
    pub removed: Vec<usize>,
    pub register_curr: bool,
    pub srs_extra: usize,
    pub srs_seed: u64,
    /// no wiring, no lookups: index with the placeholder permutation info
    pub dummy_info: bool,
    /// gates and lookups written by hand on the concrete columns instead of
    /// through the generic constructor: 0 none, 1 all, 2 every other one;
    /// 3: generic ones that were put on other columns before
    #[serde(default)]
    pub own: u8,
    /// 0 new, 1 from_commitment, 2 from_labeled_commitment
    pub fixed_ctor: u8,
    /// 0: column objects are new. Otherwise they come with an extension over
    /// another domain, 2^(warm - 1) times the size of the original one.
    #[serde(default)]
    pub warm: u8,
}

pub type Col = Vec<F>;

#[derive(Clone, Debug, PartialEq)]
pub struct Assign {
    pub w: Vec<Col>,
    pub i: Vec<Col>,
}

/// A change to one cell, made while filling (so that everything computed from
/// the cell follows) or afterwards.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Override {
    pub ty: Ty,
    pub col: usize,
    pub row: usize,
    /// added to the value
    pub delta: Fv,
    pub propagate: bool,
}

/// A field value as a string, for scenario files.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(into = "String", try_from = "String")]
pub struct Fv(pub F);
impl From<Fv> for String {
    fn from(v: Fv) -> String {
        use ark_ff::{BigInteger, PrimeField};
        let b = v.0.into_repr().to_bytes_be();
        let s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        let t = s.trim_start_matches('0');
        format!("0x{}", if t.is_empty() { "0" } else { t })
    }
}
impl TryFrom<String> for Fv {
    type Error = String;
    fn try_from(s: String) -> Result<Fv, String> {
        use ark_ff::PrimeField;
        let h = s.trim_start_matches("0x");
        let h = if h.len() % 2 == 1 {
            format!("0{}", h)
        } else {
            h.to_string()
        };
        let mut b = vec![];
        for i in (0..h.len()).step_by(2) {
            b.push(u8::from_str_radix(&h[i..i + 2], 16).map_err(|e| e.to_string())?);
        }
        Ok(Fv(F::from_be_bytes_mod_order(&b)))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Violation {
    Gate { gate: usize, row: usize },
    Copy { a: (usize, usize), b: (usize, usize) },
    Lookup { lookup: usize, row: usize },
}

impl XCol {
    pub fn values(&self, n: usize) -> Col {
        let mut p = Prng::derive(self.seed, "fixed");
        let mut v: Col = (0..n)
            .map(|_| match self.kind {
                0 => F::zero(),
                1 => F::one(),
                2 => {
                    if p.chance(2, 3) {
                        F::one()
                    } else {
                        F::zero()
                    }
                }
                3 => {
                    if p.chance(1, 4) {
                        F::zero()
                    } else {
                        p.nonzero()
                    }
                }
                4 => p.value(),
                5 => {
                    if p.chance(1, 2) {
                        F::one()
                    } else {
                        -F::one()
                    }
                }
                6 => p.nonzero(),
                7 => {
                    if p.chance(1, 5) {
                        F::one()
                    } else {
                        F::zero()
                    }
                }
                8 => f(p.below(6) as u64),
                _ => {
                    if p.chance(1, 3) {
                        f(p.below(4) as u64)
                    } else {
                        p.field()
                    }
                }
            })
            .collect();
        for (r, c) in &self.over {
            if *r < n {
                v[*r] = val(*c);
            }
        }
        v
    }
}

pub fn rot(row: usize, r: i32, n: usize) -> usize {
    ((row as i64 + r as i64).rem_euclid(n as i64)) as usize
}

impl Circuit {
    pub fn n(&self) -> usize {
        1 << self.k
    }
    pub fn domain(&self) -> GeneralEvaluationDomain<F> {
        GeneralEvaluationDomain::new(self.n()).unwrap()
    }
    pub fn permuted(&self) -> Vec<usize> {
        (0..self.witness.len())
            .filter(|&i| self.witness[i].permute)
            .collect()
    }
    pub fn has_perm(&self) -> bool {
        self.witness.iter().any(|w| w.permute)
    }
    pub fn fixed_values(&self) -> Vec<Col> {
        self.fixed.iter().map(|c| c.values(self.n())).collect()
    }
    pub fn table_values(&self) -> Vec<Col> {
        self.tables.iter().map(|c| c.values(self.n())).collect()
    }
    pub fn deltas(&self) -> Vec<F> {
        let m = self.permuted().len();
        match self.delta_seed {
            None => {
                // powers of a generator of the multiplicative group
                let g = f(7);
                (0..m).map(|i| g.pow([i as u64])).collect()
            }
            Some(s) => {
                let mut p = Prng::derive(s, "delta");
                (0..m).map(|_| p.field()).collect()
            }
        }
    }
    pub fn gate_degree(&self, g: &Gate) -> usize {
        match g {
            Gate::Out { sel, f, .. } => {
                f.degree().max(1) + sel.map_or(0, |_| 1)
            }
            Gate::Bits { sel, .. } => 2 + sel.map_or(0, |_| 1),
            Gate::Pre { kind, .. } => kind.degree(),
        }
    }
    /// Does a gate or a lookup read this column? Kinds as in `Step::Unfit`.
    pub fn reads(&self, kind: u8, idx: usize) -> bool {
        let mut qs = vec![];
        for g in &self.gates {
            match g {
                Gate::Out { sel, out, f, .. } => {
                    qs.push(*out);
                    f.queries(&mut qs);
                    qs.extend(sel.map(|s| (Ty::X, s, 0)));
                }
                Gate::Bits { sel, col, rot } => {
                    qs.push((Ty::W, *col, *rot));
                    qs.extend(sel.map(|s| (Ty::X, s, 0)));
                }
                Gate::Pre { kind, w, i, x } => {
                    let (a, b, c) = kind.widths();
                    qs.extend((*w..w + a).map(|k| (Ty::W, k, 0)));
                    qs.extend((*i..i + b).map(|k| (Ty::I, k, 0)));
                    qs.extend((*x..x + c).map(|k| (Ty::X, k, 0)));
                }
            }
        }
        for l in &self.lookups {
            for i in &l.inputs {
                i.ex().queries(&mut qs);
            }
        }
        let any = |t: Ty, len: usize| len > 0 && qs.iter().any(|q| q.0 == t && q.1 == idx % len);
        match kind {
            0 => any(Ty::W, self.witness.len()),
            1 => any(Ty::I, self.instance.len()),
            2 => any(Ty::X, self.fixed.len()),
            3 => {
                !self.tables.is_empty()
                    && self
                        .lookups
                        .iter()
                        .any(|l| l.table.iter().any(|t| t.0 == idx % self.tables.len()))
            }
            _ => false,
        }
    }
    pub fn max_degree(&self) -> usize {
        self.gates.iter().map(|g| self.gate_degree(g)).max().unwrap_or(0)
    }
    /// Rows on which gates must hold.
    pub fn enforced(&self) -> Vec<usize> {
        (0..self.n()).filter(|r| !self.removed.contains(r)).collect()
    }
    /// Does the universal setup support polynomials of the domain and of the
    /// quotient chunks (degree below the domain size)?
    pub fn srs_degree(&self) -> usize {
        self.n() - 1 + self.srs_extra
    }

    /// sigma: for every cell of a permuted column the cell it points to.
    pub fn sigma(&self) -> BTreeMap<(usize, usize), (usize, usize)> {
        let mut parent: BTreeMap<(usize, usize), (usize, usize)> = BTreeMap::new();
        fn find(
            p: &mut BTreeMap<(usize, usize), (usize, usize)>,
            x: (usize, usize),
        ) -> (usize, usize) {
            let y = *p.entry(x).or_insert(x);
            if y == x {
                return x;
            }
            let r = find(p, y);
            p.insert(x, r);
            r
        }
        for (a, b) in &self.copies {
            let ra = find(&mut parent, *a);
            let rb = find(&mut parent, *b);
            if ra != rb {
                parent.insert(ra, rb);
            }
        }
        let keys: Vec<_> = parent.keys().cloned().collect();
        let mut classes: BTreeMap<(usize, usize), Vec<(usize, usize)>> =
            BTreeMap::new();
        for k in keys {
            let r = find(&mut parent, k);
            classes.entry(r).or_default().push(k);
        }
        let mut out = BTreeMap::new();
        for (_, mut c) in classes {
            // some cyclic order
            let mut p = Prng::derive((c[0].0 * 1000 + c[0].1) as u64, "sigma");
            p.shuffle(&mut c);
            for i in 0..c.len() {
                out.insert(c[i], c[(i + 1) % c.len()]);
            }
        }
        out
    }

    pub fn sigma_columns(&self) -> Vec<Col> {
        let n = self.n();
        let d = self.domain();
        let deltas = self.deltas();
        let perm = self.permuted();
        let s = self.sigma();
        let el: Vec<F> = d.elements().collect();
        perm.iter()
            .map(|&c| {
                (0..n)
                    .map(|r| {
                        let (tc, tr) = *s.get(&(c, r)).unwrap_or(&(c, r));
                        let j = perm.iter().position(|&x| x == tc).unwrap_or(0);
                        deltas[j] * el[tr]
                    })
                    .collect()
            })
            .collect()
    }

    pub fn q_blind(&self) -> Col {
        // with the placeholder the row after the last usable one is not the
        // argument's last row, and has to be blinded, too
        let last = if self.dummy_info && !self.lookups.is_empty() { 0 } else { 1 };
        (0..self.n())
            .map(|r| if r < self.u + last { F::zero() } else { F::one() })
            .collect()
    }

    pub fn z_h(&self) -> crate::Poly {
        use ark_poly::{univariate::DensePolynomial, UVPolynomial};
        let d = self.domain();
        if self.removed.is_empty() {
            return d.vanishing_polynomial().into();
        }
        let mut p = DensePolynomial::from_coefficients_vec(vec![F::one()]);
        for r in self.enforced() {
            p = &p
                * &DensePolynomial::from_coefficients_vec(vec![
                    -d.element(r),
                    F::one(),
                ]);
        }
        p
    }

    // ------------------------------------------------------------ reference

    pub fn gate_value(
        &self,
        g: &Gate,
        row: usize,
        a: &Assign,
        x: &[Col],
    ) -> F {
        let n = self.n();
        let at = |t: Ty, i: usize, r: i32| -> F {
            let k = rot(row, r, n);
            match t {
                Ty::W => a.w[i][k],
                Ty::I => a.i[i][k],
                Ty::X => x[i][k],
            }
        };
        self.gate_eval(g, &at)
    }

    /// The gate as a formula of its queries. For ready-made gates this is the
    /// documented relation.
    pub fn gate_eval(&self, g: &Gate, at: &dyn Fn(Ty, usize, i32) -> F) -> F {
        match g {
            Gate::Out { sel, out, coef, f } => {
                let v = val(*coef) * at(out.0, out.1, out.2) - f.eval(at);
                match sel {
                    Some(s) => at(Ty::X, *s, 0) * v,
                    None => v,
                }
            }
            Gate::Bits { sel, col, rot } => {
                let b = at(Ty::W, *col, *rot);
                let v = b * (b - F::one());
                match sel {
                    Some(s) => at(Ty::X, *s, 0) * v,
                    None => v,
                }
            }
            Gate::Pre { kind, w, i, x } => {
                let w = |k: usize| at(Ty::W, w + k, 0);
                let p = |k: usize| at(Ty::I, i + k, 0);
                let s = |k: usize| at(Ty::X, x + k, 0);
                match kind {
                    Pre::Delta => {
                        let wb = match g {
                            Gate::Pre { w, .. } => *w,
                            _ => unreachable!(),
                        };
                        let e = at(Ty::W, wb, 1) - f(4) * w(0);
                        (F::one() - s(0))
                            * e
                            * (e - f(1))
                            * (e - f(2))
                            * (e - f(3))
                    }
                    Pre::XorAnd => {
                        let (a, b, c, d, qc) = (w(0), w(1), w(2), w(3), s(0));
                        let ff = c
                            * (c * (f(4) * c - f(18) * (a + b) + f(81))
                                + f(18) * (a * a + b * b)
                                - f(81) * (a + b)
                                + f(83));
                        let e = f(3) * (a + b + d) - f(2) * ff;
                        qc * (f(9) * d - f(3) * (a + b)) + e
                    }
                    Pre::Mul => w(0) * w(1) - p(0),
                    Pre::Arith => {
                        s(0) * w(0) * w(1)
                            + s(1) * w(0)
                            + s(2) * w(1)
                            + s(3) * w(2)
                            + s(4)
                            + p(0)
                    }
                    Pre::Arith4 => {
                        s(0) * w(0) * w(1)
                            + s(1) * w(0)
                            + s(2) * w(1)
                            + s(4) * w(2)
                            + s(3) * w(3)
                            + s(5)
                            + p(0)
                    }
                    Pre::Rescue => {
                        let p5 = |v: F| v * v * v * v * v;
                        s(0) * p5(w(0))
                            + s(1) * p5(w(1))
                            + s(2) * p5(w(2))
                            + s(3) * p5(w(3))
                            - w(4)
                    }
                }
            }
        }
    }

    /// For XOR/AND the relation in words: with c = a b and a, b two-bit values,
    /// d must be a & b or a ^ b.
    pub fn xorand_ok(a: u64, b: u64, and: bool) -> F {
        f(if and { a & b } else { a ^ b })
    }

    pub fn lookup_tuple(&self, l: &Lookup, row: usize, a: &Assign, x: &[Col]) -> Vec<F> {
        let n = self.n();
        l.inputs
            .iter()
            .map(|i| {
                i.ex().eval(&|t, c, r| {
                    let k = rot(row, r, n);
                    match t {
                        Ty::W => a.w[c][k],
                        Ty::I => a.i[c][k],
                        Ty::X => x[c][k],
                    }
                })
            })
            .collect()
    }

    pub fn table_rows(&self, l: &Lookup, t: &[Col]) -> BTreeSet<Vec<F>> {
        let n = self.n();
        (0..self.u)
            .map(|s| l.table.iter().map(|&(c, r)| t[c][rot(s, r, n)]).collect())
            .collect()
    }

    /// Every way in which the assignment is not one of the circuit.
    pub fn violations(&self, a: &Assign) -> Vec<Violation> {
        let x = self.fixed_values();
        let t = self.table_values();
        let mut out = vec![];
        for (gi, g) in self.gates.iter().enumerate() {
            for &row in &self.enforced() {
                if !self.gate_value(g, row, a, &x).is_zero() {
                    out.push(Violation::Gate { gate: gi, row });
                }
            }
        }
        for (c, d) in &self.copies {
            if a.w[c.0][c.1] != a.w[d.0][d.1] {
                out.push(Violation::Copy { a: *c, b: *d });
            }
        }
        for (li, l) in self.lookups.iter().enumerate() {
            let rows = self.table_rows(l, &t);
            for row in 0..self.u {
                if !rows.contains(&self.lookup_tuple(l, row, a, &x)) {
                    out.push(Violation::Lookup { lookup: li, row });
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ filling

    /// An assignment satisfying the circuit, apart from the overrides.
    pub fn fill(&self, seed: u64, over: &[Override]) -> Assign {
        let n = self.n();
        let x = self.fixed_values();
        let t = self.table_values();
        let mut p = Prng::derive(seed, "fill");
        let mut a = Assign {
            w: vec![vec![F::zero(); n]; self.witness.len()],
            i: self
                .instance
                .iter()
                .map(|_| (0..n).map(|_| p.value()).collect())
                .collect(),
        };
        for w in a.w.iter_mut() {
            for c in w.iter_mut() {
                *c = p.value();
            }
        }
        let bump = |ty: Ty, col: usize, row: usize, v: &mut F, prop: bool| {
            for o in over {
                if o.ty == ty && o.col == col && o.row == row && o.propagate == prop {
                    *v += o.delta.0;
                }
            }
        };
        let src: BTreeMap<(usize, usize), (usize, usize)> =
            self.copies.iter().map(|(s, d)| (*d, *s)).collect();
        // free instance columns may be overridden up front
        for (c, col) in a.i.iter_mut().enumerate() {
            if !self.instance[c].derived {
                for (r, v) in col.iter_mut().enumerate() {
                    bump(Ty::I, c, r, v, true);
                }
            }
        }
        for unit in &self.order {
            let mut up = Prng::derive(seed ^ 0x77, &format!("{:?}", unit));
            match unit {
                Unit::Col(c) => {
                    for r in 0..n {
                        let mut v = match self.witness[*c].fill {
                            FillKind::Bits => f(up.below(2) as u64),
                            FillKind::Quad => f(up.below(4) as u64),
                            _ => up.value(),
                        };
                        if let Some(s) = src.get(&(*c, r)) {
                            v = a.w[s.0][s.1];
                        }
                        bump(Ty::W, *c, r, &mut v, true);
                        a.w[*c][r] = v;
                    }
                }
                Unit::Gate(gi) => match &self.gates[*gi] {
                    Gate::Out { sel, out, coef, f } => {
                        // A derived column may be unconstrained where the
                        // selector is off.
                        for r in 0..n {
                            let v = up.value();
                            if out.0 == Ty::W {
                                a.w[out.1][r] = v;
                            } else {
                                a.i[out.1][r] = v;
                            }
                        }
                        for row in 0..n {
                            if let Some(s) = sel {
                                if x[*s][row].is_zero() {
                                    continue;
                                }
                            }
                            let v = {
                                let a = &a;
                                f.eval(&|t, c, r| {
                                    let k = rot(row, r, n);
                                    match t {
                                        Ty::W => a.w[c][k],
                                        Ty::I => a.i[c][k],
                                        Ty::X => x[c][k],
                                    }
                                })
                            };
                            let v = v * inv(val(*coef));
                            let k = rot(row, out.2, n);
                            match out.0 {
                                Ty::W => a.w[out.1][k] = v,
                                _ => a.i[out.1][k] = v,
                            }
                        }
                        for r in 0..n {
                            match out.0 {
                                Ty::W => bump(Ty::W, out.1, r, &mut a.w[out.1][r], true),
                                _ => bump(Ty::I, out.1, r, &mut a.i[out.1][r], true),
                            }
                        }
                    }
                    Gate::Bits { .. } => {}
                    Gate::Pre { kind, w, i, x: xb } => {
                        let (w, i, xb) = (*w, *i, *xb);
                        match kind {
                            Pre::Delta => {
                                // start after a row with q_last = 1
                                let start = (0..n)
                                    .find(|&r| x[xb][r].is_one())
                                    .map_or(0, |r| (r + 1) % n);
                                for j in 0..n {
                                    let r = (start + j) % n;
                                    let prev = (r + n - 1) % n;
                                    let v = if j == 0 || x[xb][prev].is_one() {
                                        f(up.below(4) as u64)
                                    } else {
                                        f(4) * a.w[w][prev] + f(up.below(4) as u64)
                                    };
                                    a.w[w][r] = v;
                                }
                                for r in 0..n {
                                    bump(Ty::W, w, r, &mut a.w[w][r], true);
                                }
                            }
                            Pre::XorAnd => {
                                for r in 0..n {
                                    let (ai, bi) = (
                                        (0..4).find(|&k| f(k) == a.w[w][r]).unwrap_or(0),
                                        (0..4).find(|&k| f(k) == a.w[w + 1][r]).unwrap_or(0),
                                    );
                                    let mut c = a.w[w][r] * a.w[w + 1][r];
                                    bump(Ty::W, w + 2, r, &mut c, true);
                                    a.w[w + 2][r] = c;
                                    let mut d =
                                        Self::xorand_ok(ai, bi, x[xb][r].is_one());
                                    bump(Ty::W, w + 3, r, &mut d, true);
                                    a.w[w + 3][r] = d;
                                }
                            }
                            Pre::Mul => {
                                for r in 0..n {
                                    let mut v = a.w[w][r] * a.w[w + 1][r];
                                    bump(Ty::I, i, r, &mut v, true);
                                    a.i[i][r] = v;
                                }
                            }
                            Pre::Arith => {
                                for r in 0..n {
                                    let (l, m) = (a.w[w][r], a.w[w + 1][r]);
                                    let s = x[xb][r] * l * m
                                        + x[xb + 1][r] * l
                                        + x[xb + 2][r] * m
                                        + x[xb + 4][r]
                                        + a.i[i][r];
                                    let mut v = -s * inv(x[xb + 3][r]);
                                    bump(Ty::W, w + 2, r, &mut v, true);
                                    a.w[w + 2][r] = v;
                                }
                            }
                            Pre::Arith4 => {
                                for r in 0..n {
                                    let (l, m, d) =
                                        (a.w[w][r], a.w[w + 1][r], a.w[w + 3][r]);
                                    let s = x[xb][r] * l * m
                                        + x[xb + 1][r] * l
                                        + x[xb + 2][r] * m
                                        + x[xb + 3][r] * d
                                        + x[xb + 5][r]
                                        + a.i[i][r];
                                    let mut v = -s * inv(x[xb + 4][r]);
                                    bump(Ty::W, w + 2, r, &mut v, true);
                                    a.w[w + 2][r] = v;
                                }
                            }
                            Pre::Rescue => {
                                for r in 0..n {
                                    let p5 = |v: F| v * v * v * v * v;
                                    let mut v = F::zero();
                                    for j in 0..4 {
                                        v += x[xb + j][r] * p5(a.w[w + j][r]);
                                    }
                                    bump(Ty::W, w + 4, r, &mut v, true);
                                    a.w[w + 4][r] = v;
                                }
                            }
                        }
                    }
                },
                Unit::Lookup(li) => {
                    let l = &self.lookups[*li];
                    for inp in &l.inputs {
                        for r in 0..n {
                            a.w[inp.col][r] = up.value();
                        }
                    }
                    // few distinct rows of the table are hit, so that inputs
                    // repeat and some table rows stay unused
                    let span = 1 + up.below(self.u.max(1));
                    for row in 0..self.u {
                        let s = up.below(span.max(1)) % self.u.max(1);
                        for (inp, &(tc, tr)) in l.inputs.iter().zip(&l.table) {
                            let want = t[tc][rot(s, tr, n)];
                            let rest = match &inp.rest {
                                None => F::zero(),
                                Some(e) => {
                                    let a = &a;
                                    e.eval(&|t, c, r| {
                                        let k = rot(row, r, n);
                                        match t {
                                            Ty::W => a.w[c][k],
                                            Ty::I => a.i[c][k],
                                            Ty::X => x[c][k],
                                        }
                                    })
                                }
                            };
                            let k = rot(row, inp.rot, n);
                            let f = inp.factor(&x, row);
                            if !f.is_zero() {
                                a.w[inp.col][k] = (want - rest) * inv(f);
                            }
                        }
                    }
                    for inp in &l.inputs {
                        for r in 0..n {
                            bump(Ty::W, inp.col, r, &mut a.w[inp.col][r], true);
                        }
                    }
                }
            }
        }
        for (c, col) in a.w.iter_mut().enumerate() {
            for (r, v) in col.iter_mut().enumerate() {
                bump(Ty::W, c, r, v, false);
            }
        }
        for (c, col) in a.i.iter_mut().enumerate() {
            for (r, v) in col.iter_mut().enumerate() {
                bump(Ty::I, c, r, v, false);
            }
        }
        a
    }
}

// ---------------------------------------------------------------- generation

/// What a generated circuit should contain.
#[derive(Clone, Debug, Default)]
pub struct Want {
    pub perm: Option<bool>,
    pub lookup: Option<bool>,
    pub pre: Option<bool>,
    pub instance: Option<bool>,
    pub blind_rows: bool,
    pub removed: Option<bool>,
    pub max_k: u32,
    pub small: bool,
}

struct Gen {
    p: Prng,
    c: Circuit,
    /// witness columns filled so far, readable by later units
    ready: Vec<usize>,
    ready_i: Vec<usize>,
    max_deg: usize,
    /// degree of the steepest gates, nought for the usual ones
    high: usize,
    /// up to how many rows one gate reads of one column, nought for the usual
    wide: usize,
}

const LABELS: [&str; 12] = [
    "a", "b", "w_10", "w_2", "w_1", "agg_permutation_0", "lookup_a_prime_0_poly",
    "q_blind", "Z", "é", "quotient_chunk_0", "omega_1_xi",
];

impl Gen {
    fn label(&mut self, used: &[String]) -> String {
        loop {
            let l = match self.p.below(4) {
                0 => self.p.pick(&LABELS).to_string(),
                1 => format!("col_{}", self.p.below(40)),
                2 => format!("{}", (b'a' + self.p.below(26) as u8) as char),
                _ => format!("x{}_{}", self.p.below(3), self.p.below(30)),
            };
            if !used.contains(&l) {
                return l;
            }
        }
    }
    fn new_w(&mut self, fill: FillKind) -> usize {
        let used: Vec<String> =
            self.c.witness.iter().map(|w| w.label.clone()).collect();
        let label = self.label(&used);
        self.c.witness.push(WCol {
            label,
            permute: false,
            fill,
        });
        self.c.witness.len() - 1
    }
    fn new_i(&mut self, derived: bool) -> usize {
        let used: Vec<String> =
            self.c.instance.iter().map(|w| w.label.clone()).collect();
        let label = self.label(&used);
        self.c.instance.push(ICol { label, derived });
        self.c.instance.len() - 1
    }
    fn new_x(&mut self, kind: u8) -> usize {
        let used: Vec<String> =
            self.c.fixed.iter().map(|w| w.label.clone()).collect();
        let label = self.label(&used);
        let seed = self.p.u64() >> 20;
        self.c.fixed.push(XCol {
            label,
            kind,
            seed,
            over: vec![],
        });
        self.c.fixed.len() - 1
    }
    fn new_t(&mut self, kind: u8) -> usize {
        let used: Vec<String> =
            self.c.tables.iter().map(|w| w.label.clone()).collect();
        let label = self.label(&used);
        let seed = self.p.u64() >> 20;
        self.c.tables.push(XCol {
            label,
            kind,
            seed,
            over: vec![],
        });
        self.c.tables.len() - 1
    }
    fn rotation(&mut self) -> i32 {
        let n = self.c.n() as i32;
        match self.p.below(8) {
            0..=3 => 0,
            4 => 1,
            5 => -1,
            6 => {
                let mut d = 1 + self.p.below((n - 1) as usize) as i32;
                // once or twice around the domain
                if self.p.chance(1, 6) {
                    d += n * (1 + self.p.below(2) as i32);
                }
                if self.p.chance(1, 2) {
                    d
                } else {
                    -d
                }
            }
            _ => *self.p.pick(&[1, -1, 2 % n, -(2 % n), 3 % n]),
        }
    }
    fn query(&mut self) -> Ex {
        for _ in 0..8 {
            match self.p.below(6) {
                0..=3 if !self.ready.is_empty() => {
                    let i = *self.p.pick(&self.ready.clone());
                    let r = self.rotation();
                    return q(Ty::W, i, r);
                }
                4 if !self.ready_i.is_empty() => {
                    let i = *self.p.pick(&self.ready_i.clone());
                    let r = self.rotation();
                    return q(Ty::I, i, r);
                }
                5 if !self.c.fixed.is_empty() => {
                    let i = self.p.below(self.c.fixed.len());
                    let r = self.rotation();
                    return q(Ty::X, i, r);
                }
                _ => {}
            }
        }
        if self.ready.is_empty() {
            Ex::C(self.p.below(32) as u64)
        } else {
            q(Ty::W, self.ready[0], 0)
        }
    }
    fn expr(&mut self, deg: usize, size: usize) -> Ex {
        if size <= 1 || deg == 0 {
            if deg == 0 || self.p.chance(1, 8) {
                return Ex::C(self.p.below(40) as u64);
            }
            return self.query();
        }
        match self.p.below(6) {
            0 | 1 => add(self.expr(deg, size / 2), self.expr(deg, size / 2)),
            2 => sub(self.expr(deg, size / 2), self.expr(deg, size / 2)),
            3 if deg >= 2 => {
                let d = 1 + self.p.below(deg - 1);
                mul(self.expr(d, size / 2), self.expr(deg - d, size / 2))
            }
            4 => Ex::Neg(Box::new(self.expr(deg, size - 1))),
            5 => Ex::Scale(
                Box::new(self.expr(deg, size - 1)),
                self.p.below(40) as u64,
            ),
            _ => self.query(),
        }
    }
    /// A weighted sum of many rows of one column.
    fn spread(&mut self) -> Ex {
        let col = if self.ready.is_empty() || (!self.c.fixed.is_empty() && self.p.chance(1, 4)) {
            if self.c.fixed.is_empty() {
                return self.query();
            }
            (Ty::X, self.p.below(self.c.fixed.len()))
        } else {
            (Ty::W, *self.p.pick(&self.ready.clone()))
        };
        let k = 4 + self.p.below(self.wide - 3);
        let first = -(self.p.below(k + 1) as i32);
        let step = if self.p.chance(1, 4) { 2 } else { 1 };
        let mut f = q(col.0, col.1, first);
        for j in 1..k as i32 {
            let t = q(col.0, col.1, first + step * j);
            let t = match self.p.below(3) {
                0 => Ex::Scale(Box::new(t), self.p.below(40) as u64),
                1 => Ex::Neg(Box::new(t)),
                _ => t,
            };
            f = add(f, t);
        }
        f
    }
    fn product(&mut self, deg: usize) -> Ex {
        let mut f = self.query();
        for _ in 1..deg {
            let x = if self.p.chance(1, 4) {
                add(self.query(), Ex::C(self.p.below(40) as u64))
            } else {
                self.query()
            };
            f = mul(f, x);
        }
        f
    }
    fn free_col(&mut self) -> usize {
        let fill = if self.p.chance(1, 6) {
            FillKind::Bits
        } else {
            FillKind::Free
        };
        let c = self.new_w(fill);
        self.c.order.push(Unit::Col(c));
        self.ready.push(c);
        c
    }
    fn selector(&mut self) -> Option<usize> {
        if self.p.chance(1, 3) {
            return None;
        }
        let kinds = [1u8, 2, 2, 2, 3, 6, 7];
        let k = *self.p.pick(&kinds);
        if !self.c.fixed.is_empty() && self.p.chance(1, 3) {
            return Some(self.p.below(self.c.fixed.len()));
        }
        Some(self.new_x(k))
    }
    fn out_gate(&mut self, instance: bool) {
        let sel = self.selector();
        let room = self.max_deg - sel.map_or(0, |_| 1);
        let deg = 1 + self.p.below(room.max(1));
        let size = 2 + self.p.below(7);
        let f = if self.wide > 0 && self.p.chance(1, 2) {
            self.spread()
        } else if self.high > 0 && self.p.chance(1, 2) {
            let d = if self.p.chance(1, 2) { self.high } else { 2 + self.p.below(self.high - 1) };
            self.product(d)
        } else {
            self.expr(deg, size)
        };
        let rot = if self.p.chance(2, 3) {
            0
        } else {
            self.rotation()
        };
        let coef = *self.p.pick(&[1u64, 1, 1, 17, 2, 33]);
        let out = if instance {
            let c = self.new_i(true);
            self.ready_i.push(c);
            (Ty::I, c, rot)
        } else {
            let c = self.new_w(FillKind::Derived);
            self.ready.push(c);
            (Ty::W, c, rot)
        };
        self.c.gates.push(Gate::Out { sel, out, coef, f });
        self.c.order.push(Unit::Gate(self.c.gates.len() - 1));
    }
    fn pre_gate(&mut self) {
        let kinds = [
            Pre::Delta,
            Pre::XorAnd,
            Pre::Mul,
            Pre::Arith,
            Pre::Arith4,
            Pre::Rescue,
        ];
        let ok: Vec<Pre> = kinds
            .into_iter()
            .filter(|k| k.degree() <= self.max_deg)
            .collect();
        let kind = *self.p.pick(&ok);
        self.pre_gate_of(kind);
    }
    fn pre_gate_of(&mut self, kind: Pre) {
        let (ww, iw, _) = kind.widths();
        let w = self.c.witness.len();
        let x = self.c.fixed.len();
        let i = self.c.instance.len();
        for j in 0..ww {
            let fill = match (kind, j) {
                (Pre::Delta, 0) => FillKind::Derived,
                (Pre::XorAnd, 0 | 1) => FillKind::Quad,
                (Pre::XorAnd, _) => FillKind::Derived,
                (Pre::Arith | Pre::Arith4, 2) => FillKind::Derived,
                (Pre::Rescue, 4) => FillKind::Derived,
                _ => FillKind::Free,
            };
            let derived = fill == FillKind::Derived;
            let c = self.new_w(fill);
            if !derived {
                self.c.order.push(Unit::Col(c));
            }
        }
        for _ in 0..iw {
            self.new_i(kind == Pre::Mul);
        }
        match kind {
            Pre::Delta => {
                let c = self.new_x(7);
                let r = self.p.below(self.c.n());
                self.c.fixed[c].over.push((r, 1));
            }
            Pre::XorAnd => {
                self.new_x(5);
            }
            Pre::Mul => {}
            Pre::Arith => {
                for k in [3u8, 4, 3, 6, 4] {
                    self.new_x(k);
                }
            }
            Pre::Arith4 => {
                for k in [3u8, 4, 3, 3, 6, 4] {
                    self.new_x(k);
                }
            }
            Pre::Rescue => {
                for k in [4u8, 3, 6, 4] {
                    self.new_x(k);
                }
            }
        }
        self.c.gates.push(Gate::Pre { kind, w, i, x });
        self.c.order.push(Unit::Gate(self.c.gates.len() - 1));
        for j in 0..ww {
            self.ready.push(w + j);
        }
        for j in 0..iw {
            self.ready_i.push(i + j);
        }
    }
    fn lookup(&mut self) {
        // sometimes a second lookup of the same inputs or into the same table
        if !self.c.lookups.is_empty() && self.p.chance(1, 4) {
            let l = self.c.lookups[self.p.below(self.c.lookups.len())].clone();
            self.c.lookups.push(l);
            return;
        }
        if self.p.chance(1, 6) {
            // ready-made configurations
            let ar = *self.p.pick(&[1usize, 3]);
            let w = self.c.witness.len();
            let t = self.c.tables.len();
            let mut inputs = vec![];
            let mut table = vec![];
            for j in 0..ar {
                let c = self.new_w(FillKind::Derived);
                let k = *self.p.pick(&[8u8, 9]);
                self.new_t(k);
                inputs.push(LkIn {
                    col: c,
                    rot: 0,
                    coef: 1,
                    rest: None,
                    sel: None,
                });
                table.push((t + j, 0));
            }
            for inp in &inputs {
                self.ready.push(inp.col);
            }
            self.c.lookups.push(Lookup {
                inputs,
                table,
                pre: Some((w, t)),
            });
            self.c.order.push(Unit::Lookup(self.c.lookups.len() - 1));
            return;
        }
        let ar = 1 + self.p.weighted(&[4, 3, 2, 1]);
        let share = !self.c.tables.is_empty() && self.p.chance(1, 3);
        // a selector that switches the whole lookup off where it is nought:
        // then the table has a row of noughts
        let switch = if !share && self.p.chance(1, 5) {
            let k = *self.p.pick(&[2u8, 3, 7]);
            Some((self.new_x(k), self.p.below(self.c.u.max(1))))
        } else {
            None
        };
        let mut inputs = vec![];
        let mut table = vec![];
        for _ in 0..ar {
            let t = if share && self.p.chance(2, 3) {
                self.p.below(self.c.tables.len())
            } else {
                let k = *self.p.pick(&[8u8, 8, 9, 4]);
                self.new_t(k)
            };
            let tr = if self.p.chance(3, 4) { 0 } else { self.rotation() };
            table.push((t, tr));
            let mut rest = if self.p.chance(1, 2) {
                None
            } else {
                let s = 1 + self.p.below(4);
                let d = 1 + self.p.weighted(&[12, 4, 2, 1]);
                Some(if d > 1 && self.p.chance(1, 2) { self.product(d) } else { self.expr(d, s) })
            };
            let rot = if self.p.chance(2, 3) { 0 } else { self.rotation() };
            let coef = *self.p.pick(&[1u64, 1, 1, 18, 3, 35]);
            let mut sel = None;
            if let Some((s, row)) = switch {
                sel = Some(s);
                rest = None;
                let n = self.c.n();
                let at = crate::circuit::rot(row, tr, n);
                self.c.tables[t].over.push((at, 0));
            } else if self.p.chance(1, 8) {
                sel = Some(self.new_x(6));
            }
            inputs.push((rest, rot, coef, sel));
        }
        let inputs: Vec<LkIn> = inputs
            .into_iter()
            .map(|(rest, rot, coef, sel)| LkIn {
                col: self.new_w(FillKind::Derived),
                rot,
                coef,
                rest,
                sel,
            })
            .collect();
        for i in &inputs {
            self.ready.push(i.col);
        }
        self.c.lookups.push(Lookup {
            inputs,
            table,
            pre: None,
        });
        self.c.order.push(Unit::Lookup(self.c.lookups.len() - 1));
    }
}

pub fn generate(seed: u64, want: &Want) -> Circuit {
    let mut p = Prng::derive(seed, "circuit");
    let maxk = want.max_k.max(2);
    let k = if want.small {
        2 + p.below(2) as u32
    } else if maxk > 6 {
        5 + p.below(maxk as usize - 4) as u32
    } else {
        match p.below(8) {
            0 => 2,
            1 | 2 => 3,
            3 | 4 | 5 => 4,
            6 => 5,
            _ => 6,
        }
    }
    .min(maxk);
    // now and then a circuit with many gates and lookups
    let many = !want.small && p.chance(1, 14);
    // or with gates of a high degree, hence a long quotient
    let high = if !want.small && !many && p.chance(1, 14) { 6 + p.below(18) } else { 0 };
    let k = if many || high > 0 { k.min(4) } else { k };
    let n = 1usize << k;
    let perm = want.perm.unwrap_or_else(|| p.chance(3, 5));
    let lookup = want.lookup.unwrap_or_else(|| p.chance(2, 5));
    let removed = want.removed.unwrap_or_else(|| p.chance(1, 5));
    let pre = want.pre.unwrap_or_else(|| p.chance(1, 4));
    let u = if want.blind_rows {
        1 + p.below(n - 3).min(n - 3)
    } else {
        match p.below(5) {
            0 => n - 1,
            1 => n - 2,
            2 => 1 + p.below(n - 1),
            _ => n / 2 + p.below(n / 2),
        }
    };
    let max_deg = *p.pick(&[2usize, 3, 3, 3, 4, 5]);
    // some of the ready-made gates are of degree 5 and 6
    let steep = *p.pick(&[3usize, 3, 4, 5, 6, 6]);
    let mut g = Gen {
        c: Circuit {
            k,
            u,
            witness: vec![],
            instance: vec![],
            fixed: vec![],
            tables: vec![],
            gates: vec![],
            lookups: vec![],
            copies: vec![],
            order: vec![],
            delta_seed: if p.chance(1, 2) {
                None
            } else {
                Some(p.u64() >> 20)
            },
            removed: vec![],
            register_curr: p.chance(1, 2),
            srs_extra: *p.pick(&[0usize, 0, 0, 1, 2, n]),
            srs_seed: p.below(3) as u64,
            dummy_info: false,
            own: if p.chance(1, 3) { 1 + p.below(3) as u8 } else { 0 },
            fixed_ctor: p.below(3) as u8,
            warm: if p.chance(1, 6) { 1 + p.below(4) as u8 } else { 0 },
        },
        p,
        ready: vec![],
        ready_i: vec![],
        max_deg: if pre { steep } else { max_deg },
        high,
        wide: 0,
    };
    if !want.small && g.c.n() >= 16 && g.p.chance(1, 10) {
        g.wide = 5 + g.p.below(5);
    }
    // columns free to choose
    let nfree = 1 + g.p.below(if want.small { 2 } else { 4 });
    for _ in 0..nfree {
        g.free_col();
    }
    if want.instance.unwrap_or_else(|| g.p.chance(2, 3)) {
        for _ in 0..1 + g.p.below(2) {
            let c = g.new_i(false);
            g.ready_i.push(c);
        }
    }
    for _ in 0..g.p.below(3) {
        let k = *g.p.pick(&[1u8, 2, 3, 4, 6]);
        g.new_x(k);
    }
    if lookup {
        let cnt = if many && g.p.chance(1, 3) {
            7 + g.p.below(8)
        } else if many {
            2 + g.p.below(5)
        } else { 1 + g.p.weighted(&[4, 2, 1]) };
        for _ in 0..cnt {
            g.lookup();
        }
    }
    if pre {
        g.pre_gate();
        if g.p.chance(1, 3) {
            g.pre_gate();
        }
    }
    let ngates = if many {
        6 + g.p.below(30)
    } else {
        1 + g.p.below(if want.small { 2 } else { 4 })
    };
    for _ in 0..ngates {
        if g.p.chance(1, 4) {
            g.free_col();
        }
        let inst = want.instance != Some(false) && g.p.chance(1, 6);
        g.out_gate(inst);
    }
    // constraints on bit columns
    let bits: Vec<usize> = (0..g.c.witness.len())
        .filter(|&i| g.c.witness[i].fill == FillKind::Bits)
        .collect();
    for b in bits {
        if g.p.chance(3, 4) {
            let sel = if g.max_deg >= 3 { g.selector() } else { None };
            let rot = if g.p.chance(2, 3) { 0 } else { g.rotation() };
            g.c.gates.push(Gate::Bits { sel, col: b, rot });
        }
    }
    // trailing columns that only receive copies, or that nothing reads
    if g.p.chance(1, 3) {
        let c = g.new_w(FillKind::Free);
        g.c.order.push(Unit::Col(c));
    }
    if g.c.max_degree() < 2 {
        let a = q(Ty::W, g.ready[0], 0);
        let b = g.query();
        let out = g.new_w(FillKind::Derived);
        g.ready.push(out);
        g.c.gates.push(Gate::Out {
            sel: None,
            out: (Ty::W, out, 0),
            coef: 1,
            f: mul(a, b),
        });
        let gi = g.c.gates.len() - 1;
        g.c.order.push(Unit::Gate(gi));
        if g.c.max_degree() < 2 {
            // the second factor was a constant
            g.c.gates[gi] = Gate::Out {
                sel: None,
                out: (Ty::W, out, 0),
                coef: 1,
                f: mul(q(Ty::W, g.ready[0], 0), q(Ty::W, g.ready[0], 1)),
            };
        }
    }
    // the order of gates in the list is not the order of filling
    if g.p.chance(1, 2) {
        let m = g.c.gates.len();
        let mut idx: Vec<usize> = (0..m).collect();
        g.p.shuffle(&mut idx);
        let gates: Vec<Gate> = idx.iter().map(|&i| g.c.gates[i].clone()).collect();
        g.c.gates = gates;
        for un in g.c.order.iter_mut() {
            if let Unit::Gate(i) = un {
                *i = idx.iter().position(|x| x == i).unwrap();
            }
        }
    }
    if perm {
        if g.p.chance(1, 12) && !want.small {
            // many wired columns
            let wide = if g.p.chance(1, 4) { 25 + g.p.below(25) } else { 9 + g.p.below(4) };
            for _ in 0..wide {
                let c = g.new_w(FillKind::Free);
                g.c.order.push(Unit::Col(c));
            }
        }
        let m = g.c.witness.len();
        let mut any = false;
        let num = 1 + g.p.below(4);
        for i in 0..m {
            if g.p.chance(num, 4) || m - i == 1 && !any {
                g.c.witness[i].permute = true;
                any = true;
            }
        }
        wire(&mut g.p, &mut g.c);
    }
    if removed {
        // rows beyond u, or any row when there is neither wiring nor lookup
        let lo = if perm || lookup { u + 1 } else { 0 };
        let mut rows: Vec<usize> = (lo..n).collect();
        g.p.shuffle(&mut rows);
        let t = g.p.below((n / 2).min(rows.len()) + 1);
        rows.truncate(t);
        rows.sort();
        g.c.removed = rows;
    }
    if !perm && !lookup {
        g.c.dummy_info = g.p.chance(1, 2);
    }
    canonical(&mut g.c);
    g.c
}

/// Names every queried point of a column in one way only: a column queried at
/// both +1 and -(n-1) names one point twice, which the library refuses.
pub fn canonical(c: &mut Circuit) {
    let n = c.n() as i32;
    type Key = (u8, usize, i32);
    let mut names: BTreeMap<Key, i32> = BTreeMap::new();
    for g in &c.gates {
        if let Gate::Pre { kind: Pre::Delta, w, .. } = g {
            names.insert((0, *w, 1i32.rem_euclid(n)), 1);
        }
    }
    let mut name = |ty: u8, col: usize, r: i32| -> i32 {
        let m = r.rem_euclid(n);
        if m == 0 {
            return 0;
        }
        *names.entry((ty, col, m)).or_insert(r)
    };
    fn ex(e: &mut Ex, name: &mut dyn FnMut(u8, usize, i32) -> i32) {
        match e {
            Ex::C(_) => {}
            Ex::Q(t, i, r) => *r = name(*t as u8, *i, *r),
            Ex::Neg(a) | Ex::Scale(a, _) => ex(a, name),
            Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => {
                ex(a, name);
                ex(b, name);
            }
        }
    }
    for g in c.gates.iter_mut() {
        match g {
            Gate::Out { out, f, .. } => {
                out.2 = name(out.0 as u8, out.1, out.2);
                ex(f, &mut name);
            }
            Gate::Bits { col, rot, .. } => *rot = name(0, *col, *rot),
            Gate::Pre { .. } => {}
        }
    }
    for l in c.lookups.iter_mut() {
        for i in l.inputs.iter_mut() {
            i.rot = name(0, i.col, i.rot);
            if let Some(e) = &mut i.rest {
                ex(e, &mut name);
            }
        }
        for (t, r) in l.table.iter_mut() {
            *r = name(9, *t, *r);
        }
    }
}

/// Random copies whose targets are free cells filled after their sources.
pub fn wire(p: &mut Prng, c: &mut Circuit) {
    let perm = c.permuted();
    let free: Vec<usize> = perm
        .iter()
        .cloned()
        .filter(|&i| c.witness[i].fill == FillKind::Free)
        .collect();
    if free.is_empty() {
        return;
    }
    // position of each column in the filling order
    let mut pos = vec![0usize; c.witness.len()];
    for (k, un) in c.order.iter().enumerate() {
        match un {
            Unit::Col(x) => pos[*x] = k,
            Unit::Gate(g) => match &c.gates[*g] {
                Gate::Out { out, .. } if out.0 == Ty::W => pos[out.1] = k,
                Gate::Pre { kind, w, .. } => {
                    for j in 0..kind.widths().0 {
                        if c.witness[w + j].fill == FillKind::Derived {
                            pos[w + j] = k;
                        }
                    }
                }
                _ => {}
            },
            Unit::Lookup(l) => {
                for i in &c.lookups[*l].inputs {
                    pos[i.col] = k;
                }
            }
        }
    }
    let cnt = 1 + p.below(2 * c.u.min(12) + 2);
    let mut dsts: BTreeSet<(usize, usize)> = BTreeSet::new();
    for _ in 0..cnt {
        let d = (*p.pick(&free), p.below(c.u));
        let s = (*p.pick(&perm), p.below(c.u));
        if dsts.contains(&d) || s == d {
            continue;
        }
        let before = (pos[s.0], s.1) < (pos[d.0], d.1)
            && (pos[s.0] != pos[d.0] || s.0 == d.0);
        if before {
            dsts.insert(d);
            c.copies.push((s, d));
        }
    }
    // rows 0 and u-1 matter
    let d = (*p.pick(&free), c.u - 1);
    let s = (*p.pick(&perm), 0);
    if !dsts.contains(&d) && pos[s.0] < pos[d.0] {
        c.copies.push((s, d));
    }
}
