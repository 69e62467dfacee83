//! The nodes of a simulated deployment: provers and verifiers that keep their
//! library objects alive between calls, as a service would.
use crate::circuit::*;
use crate::seam::{RngSpec, SimFs, SimPc, SimRng};
use crate::{Poly, F};
use ark_ec::AffineCurve;
use ark_ff::{FpParameters, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::{
    PermutationInfo, ProverKey, ProverPreprocessedInput, VerifierKey,
    VerifierPreprocessedInput,
};
use zero_over_k::indexer::Indexer;
use zero_over_k::mock_prover::MockProver;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{
    InstanceProverOracle, InstanceVerifierOracle,
};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{
    CommittedOracle,
    ConcreteOracle, FixedOracle, InstanceOracle, Instantiable, WitnessOracle,
};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::turbo_plonk::{TPProof, TurboPlonk};
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::{Delta, DeltaXorAnd};
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::{
    PlonkArith4, PrecompiledPlonkArith,
};
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::oracles::query::OracleQuery;
use zero_over_k::vo::error::Error as VOError;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::query::VirtualQuery;
use std::ops::{Add, Mul, Neg, Sub};
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

pub trait Backend: HomomorphicCommitment<F> + 'static {
    const NAME: &'static str;
    /// A change of the opening proof that a stranger could make.
    fn tamper_opening(p: &mut Self::Proof, how: u8);
}
fn tamper_rv(rv: &mut Option<F>, how: u8) {
    match how {
        0 => *rv = None,
        1 => *rv = Some(F::zero()),
        _ => *rv = Some(rv.unwrap_or_else(F::zero) + F::one()),
    }
}
impl Backend for crate::fieldkzg::FieldKzg {
    const NAME: &'static str = "field-kzg (stub)";
    fn tamper_opening(p: &mut Self::Proof, how: u8) {
        match how % 7 {
            h @ 0..=2 => tamper_rv(&mut p.random_v, h),
            3 => p.w = F::zero(),
            4 => p.w = -p.w,
            5 => p.w += F::one(),
            _ => p.w += p.w,
        }
    }
}
/// A curve point outside the subgroup that KZG works in: every pairing with it
/// is one, so adding it to an opening is only noticed where points are decoded.
fn small_order() -> ark_bls12_381::G1Affine {
    let p = (1u64..)
        .find_map(|x| {
            ark_bls12_381::G1Affine::get_point_from_x(x.into(), false)
        })
        .unwrap();
    let t: ark_bls12_381::G1Affine =
        p.mul(<F as ark_ff::PrimeField>::Params::MODULUS).into();
    assert!(!t.is_zero());
    t
}
impl Backend for crate::Kzg {
    const NAME: &'static str = "KZG10/BLS12-381 (real)";
    fn tamper_opening(p: &mut Self::Proof, how: u8) {
        match how % 7 {
            h @ 0..=2 => tamper_rv(&mut p.random_v, h),
            3 => p.w = Default::default(),
            4 => p.w = -p.w,
            5 => p.w = p.w + small_order(),
            _ => p.w = p.w + p.w,
        }
    }
}

pub type Tp<P> = TurboPlonk<F, SimPc<P>, SimFs>;
pub type Mp<P> = MockProver<F, SimPc<P>, SimFs>;
pub type Proof<P> = TPProof<F, SimPc<P>>;
pub type Ck<P> = <SimPc<P> as PolynomialCommitment<F, Poly>>::CommitterKey;
pub type Vk<P> = <SimPc<P> as PolynomialCommitment<F, Poly>>::VerifierKey;
pub type Comm<P> = <SimPc<P> as PolynomialCommitment<F, Poly>>::Commitment;

pub fn encode<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize(&mut b).unwrap();
    b
}
pub type MpProof<P> = zero_over_k::multiproof::Proof<F, SimPc<P>>;
pub fn decode_mp<P: Backend>(b: &[u8]) -> Result<MpProof<P>, String> {
    MpProof::<P>::deserialize(b).map_err(|e| format!("{:?}", e))
}
pub fn decode<P: Backend>(b: &[u8]) -> Result<Proof<P>, String> {
    Proof::<P>::deserialize(b).map_err(|e| format!("{:?}", e))
}

pub fn interp(c: &Circuit, evals: &[F]) -> Poly {
    Poly::from_coefficients_vec(c.domain().ifft(evals))
}

pub fn rotation(r: i32) -> Rotation {
    if r >= 0 {
        Rotation::new(r as usize, Sign::Plus)
    } else {
        Rotation::new((-r) as usize, Sign::Minus)
    }
}

fn vq(t: Ty, i: usize, r: i32) -> VirtualQuery {
    VirtualQuery::new(
        i,
        rotation(r),
        match t {
            Ty::W => OracleType::Witness,
            Ty::I => OracleType::Instance,
            Ty::X => OracleType::Fixed,
        },
    )
}

type Ve = VirtualExpression<F>;

/// Writes a formula with the operators of an expression type.
fn form<E>(e: &Ex, c: &dyn Fn(F) -> E, q: &dyn Fn(Ty, usize, i32) -> E) -> E
where
    E: Neg<Output = E> + Add<Output = E> + Sub<Output = E> + Mul<Output = E> + Mul<F, Output = E>,
{
    match e {
        Ex::C(k) => c(val(*k)),
        Ex::Q(t, i, r) => q(*t, *i, *r),
        Ex::Neg(a) => -form(a, c, q),
        Ex::Add(a, b) => form(a, c, q) + form(b, c, q),
        Ex::Sub(a, b) => form(a, c, q) - form(b, c, q),
        Ex::Mul(a, b) => form(a, c, q) * form(b, c, q),
        Ex::Scale(a, k) => form(a, c, q) * val(*k),
    }
}
pub fn vex(e: &Ex) -> Ve {
    form(e, &Ve::Constant, &|t, i, r| vq(t, i, r).into())
}
/// The query a formula means, on columns with these names.
pub fn oq(t: Ty, i: usize, r: i32, names: &[Vec<String>; 3]) -> OracleQuery {
    let (k, oracle_type) = match t {
        Ty::W => (0, OracleType::Witness),
        Ty::I => (1, OracleType::Instance),
        Ty::X => (2, OracleType::Fixed),
    };
    OracleQuery { label: names[k][i].clone(), rotation: rotation(r), oracle_type }
}
pub fn concrete(e: &Ex, names: &[Vec<String>; 3]) -> Expression<F> {
    form(e, &Expression::Constant, &|t, i, r| oq(t, i, r, names).into())
}

fn gate_form<E>(g: &Gate, c: &dyn Fn(F) -> E, q: &dyn Fn(Ty, usize, i32) -> E) -> E
where
    E: Neg<Output = E> + Add<Output = E> + Sub<Output = E> + Mul<Output = E> + Mul<F, Output = E> + Clone,
{
    match g {
        Gate::Out { sel, out: o, coef, f } => {
            let w = q(o.0, o.1, o.2);
            let out = if *coef == 1 { w } else { w * val(*coef) } - form(f, c, q);
            match sel {
                Some(s) => q(Ty::X, *s, 0) * out,
                None => out,
            }
        }
        Gate::Bits { sel, col, rot } => {
            let b = q(Ty::W, *col, *rot);
            let out = b.clone() * (b - c(F::one()));
            match sel {
                Some(s) => out * q(Ty::X, *s, 0),
                None => out,
            }
        }
        Gate::Pre { .. } => unreachable!(),
    }
}
fn gate_queries(g: &Gate) -> Vec<(Ty, usize, i32)> {
    let mut qs = vec![];
    match g {
        Gate::Out { sel, out: o, f, .. } => {
            qs.push((o.0, o.1, o.2));
            f.queries(&mut qs);
            if let Some(s) = sel {
                qs.push((Ty::X, *s, 0));
            }
        }
        Gate::Bits { sel, col, rot } => {
            qs.push((Ty::W, *col, *rot));
            if let Some(s) = sel {
                qs.push((Ty::X, *s, 0));
            }
        }
        Gate::Pre { .. } => unreachable!(),
    }
    qs
}

fn gate_expr(g: &Gate) -> (Ve, Vec<VirtualQuery>) {
    (
        gate_form(g, &Ve::Constant, &|t, i, r| vq(t, i, r).into()),
        gate_queries(g).into_iter().map(|(t, i, r)| vq(t, i, r)).collect(),
    )
}

/// A gate as the library makes it, or one that a user wrote for the trait.
pub enum AnyVo {
    Generic(GenericVO<F>),
    Own(Expression<F>),
}
impl VirtualOracle<F> for AnyVo {
    fn get_expression(&self) -> Result<&Expression<F>, VOError> {
        match self {
            AnyVo::Generic(g) => g.get_expression(),
            AnyVo::Own(e) => Ok(e),
        }
    }
}
pub enum AnyLookup {
    Generic(GenericLookupVO<F>),
    Own(Vec<Expression<F>>, Vec<OracleQuery>),
}
impl LookupVirtualOracle<F> for AnyLookup {
    fn get_expressions(&self) -> Result<&[Expression<F>], VOError> {
        match self {
            AnyLookup::Generic(g) => g.get_expressions(),
            AnyLookup::Own(e, _) => Ok(e),
        }
    }
    fn get_table_queries(&self) -> Result<&[OracleQuery], VOError> {
        match self {
            AnyLookup::Generic(g) => g.get_table_queries(),
            AnyLookup::Own(_, t) => Ok(t),
        }
    }
}

pub struct Vos {
    pub vos: Vec<AnyVo>,
    pub lookups: Vec<AnyLookup>,
}

/// Columns of somebody else's, as many as asked for and one more.
fn others(w: usize, i: usize, x: usize, t: usize) -> Columns {
    let z = vec![F::zero(); 2];
    let name = |s: &str, k: usize| format!("{}{} of another", s, k);
    let fixed = |s: &str, n: usize| {
        (0..=n).map(|k| FixedProverOracle::new(name(s, k), Poly::zero(), &z)).collect()
    };
    Columns {
        w: (0..=w)
            .map(|k| WitnessProverOracle::new(name("w", k), Poly::zero(), &z, false))
            .collect(),
        i: (0..=i).map(|k| InstanceProverOracle::new(name("i", k), Poly::zero(), &z)).collect(),
        x: fixed("x", x),
        t: fixed("t", t),
    }
}

/// Configures all gates and lookups against the given columns.
pub fn configure<W, I, X>(
    c: &Circuit,
    w: &mut [W],
    i: &mut [I],
    x: &mut [X],
    t: &mut [X],
) -> Result<Vos, String>
where
    W: WitnessOracle<F>,
    I: InstanceOracle<F>,
    X: FixedOracle<F>,
{
    let names = [
        w.iter().map(|o| o.get_label()).collect(),
        i.iter().map(|o| o.get_label()).collect(),
        x.iter().map(|o| o.get_label()).collect::<Vec<_>>(),
    ];
    let own = |k: usize| c.own == 1 || c.own == 2 && k % 2 == 0;
    let reg = |qs: &[(Ty, usize, i32)], w: &mut [W], i: &mut [I], x: &mut [X]| {
        for &(t, k, r) in qs {
            match t {
                Ty::W => w[k].register_rotation(rotation(r)),
                Ty::I => i[k].register_rotation(rotation(r)),
                Ty::X => x[k].register_rotation(rotation(r)),
            }
        }
    };
    let mut other = (c.own == 3).then(|| others(w.len(), i.len(), x.len(), t.len()));
    let mut vos = vec![];
    for (k, g) in c.gates.iter().enumerate() {
        let vo = match g {
            Gate::Pre { kind, w: wb, i: ib, x: xb } => {
                let cfg = match kind {
                    Pre::Delta => Delta::get_expr_and_queries(),
                    Pre::XorAnd => DeltaXorAnd::get_expr_and_queries(),
                    Pre::Mul => PrecompiledMul::get_expr_and_queries(),
                    Pre::Arith => PrecompiledPlonkArith::get_expr_and_queries(),
                    Pre::Arith4 => PlonkArith4::get_expr_and_queries(),
                    Pre::Rescue => PrecompiledRescue::get_expr_and_queries(),
                };
                let mut vo = GenericVO::<F>::init(cfg);
                if let Some(o) = &mut other {
                    vo.configure(&mut o.w[*wb..], &mut o.i[*ib..], &mut o.x[*xb..]);
                }
                vo.configure(&mut w[*wb..], &mut i[*ib..], &mut x[*xb..]);
                AnyVo::Generic(vo)
            }
            _ if own(k) => {
                reg(&gate_queries(g), w, i, x);
                AnyVo::Own(gate_form(g, &Expression::Constant, &|t, k, r| oq(t, k, r, &names).into()))
            }
            _ => {
                let mut vo = GenericVO::<F>::init(gate_expr(g));
                if let Some(o) = &mut other {
                    vo.configure(&mut o.w, &mut o.i, &mut o.x);
                }
                vo.configure(w, i, x);
                AnyVo::Generic(vo)
            }
        };
        vos.push(vo);
    }
    let mut lookups = vec![];
    for (k, l) in c.lookups.iter().enumerate() {
        let mut vo;
        if l.pre.is_none() && own(k) {
            let mut qs = vec![];
            for inp in &l.inputs {
                inp.ex().queries(&mut qs);
            }
            reg(&qs, w, i, x);
            let ins = l.inputs.iter().map(|i| concrete(&i.ex(), &names)).collect();
            let mut ts = vec![];
            for &(col, r) in &l.table {
                t[col].register_rotation(rotation(r));
                ts.push(OracleQuery {
                    label: t[col].get_label(),
                    rotation: rotation(r),
                    oracle_type: OracleType::Fixed,
                });
            }
            lookups.push(AnyLookup::Own(ins, ts));
            continue;
        }
        let r = match l.pre {
            Some((wb, tb)) => {
                let cfg = if l.inputs.len() == 1 {
                    PrecompiledSimple1ArithLookup::<F>::get_expressions_and_queries()
                } else {
                    PrecompiledSimple3ArithLookup::<F>::get_expressions_and_queries()
                };
                vo = GenericLookupVO::<F>::init(cfg);
                if let Some(o) = &mut other {
                    vo.configure(&mut o.w[wb..], &mut o.i, &mut o.x, &mut o.t[tb..])
                        .map_err(|e| format!("configure: {:?}", e))?;
                }
                vo.configure(&mut w[wb..], i, x, &mut t[tb..])
            }
            None => {
                let mut qs = vec![];
                for inp in &l.inputs {
                    inp.ex().queries(&mut qs);
                }
                vo = GenericLookupVO::<F>::init((
                    l.inputs.iter().map(|i| vex(&i.ex())).collect(),
                    qs.into_iter().map(|(t, i, r)| vq(t, i, r)).collect(),
                    l.table.iter().map(|&(c, r)| vq(Ty::X, c, r)).collect(),
                ));
                if let Some(o) = &mut other {
                    vo.configure(&mut o.w, &mut o.i, &mut o.x, &mut o.t)
                        .map_err(|e| format!("configure: {:?}", e))?;
                }
                vo.configure(w, i, x, t)
            }
        };
        r.map_err(|e| format!("configure: {:?}", e))?;
        lookups.push(AnyLookup::Generic(vo));
    }
    Ok(Vos { vos, lookups })
}

// ------------------------------------------------------------------- keys

pub struct Keys<P: Backend> {
    pub ck: Ck<P>,
    pub vk: Vk<P>,
}

thread_local! {
    static KEYS: RefCell<BTreeMap<(&'static str, usize, u64), Rc<dyn Any>>> =
        RefCell::new(BTreeMap::new());
}

/// Setup and key derivation through the library, as one would at deployment.
pub fn setup<P: Backend>(degree: usize, seed: u64) -> Result<Keys<P>, String> {
    let mut rng = SimRng::new(&RngSpec::good(seed ^ 0x5e7));
    let srs = Tp::<P>::universal_setup(degree, &mut rng)
        .map_err(|e| format!("setup: {:?}", e))?;
    let (ck, vk) =
        Tp::<P>::prepare_keys(&srs).map_err(|e| format!("keys: {:?}", e))?;
    Ok(Keys { ck, vk })
}

pub fn keys<P: Backend>(degree: usize, seed: u64) -> Result<Rc<Keys<P>>, String> {
    let id = (P::NAME, degree, seed);
    if let Some(k) = KEYS.with(|m| m.borrow().get(&id).cloned()) {
        return Ok(k.downcast::<Keys<P>>().ok().unwrap());
    }
    // outside of whatever is being injected, so that the cache has no history
    let (o, _) = crate::seam::session(&Default::default(), vec![], || {
        setup::<P>(degree, seed)
    });
    let k = match o {
        crate::seam::Outcome::Done(r) => Rc::new(r?),
        _ => return Err("setup panicked".into()),
    };
    KEYS.with(|m| m.borrow_mut().insert(id, k.clone()));
    Ok(k)
}

// ------------------------------------------------------------------- provers

struct Reclaim(Vec<Box<dyn FnOnce()>>);
impl Drop for Reclaim {
    fn drop(&mut self) {
        for f in self.0.drain(..) {
            f()
        }
    }
}
fn leak<T: 'static>(r: &mut Reclaim, t: T) -> &'static T {
    let p = Box::into_raw(Box::new(t));
    r.0.push(Box::new(move || unsafe { drop(Box::from_raw(p)) }));
    unsafe { &*p }
}

pub struct Columns {
    pub w: Vec<WitnessProverOracle<F>>,
    pub i: Vec<InstanceProverOracle<F>>,
    pub x: Vec<FixedProverOracle<F>>,
    pub t: Vec<FixedProverOracle<F>>,
}

/// A preprocessed column, by any of the ways to make one.
fn fixed_column(c: &Circuit, label: String, v: &[F]) -> FixedProverOracle<F> {
    if c.warm == 0 {
        return FixedProverOracle::new(label, interp(c, v), v);
    }
    let other = GeneralEvaluationDomain::new(c.n() << (c.warm - 1)).unwrap();
    FixedProverOracle::from_evals_and_domains(label, v, &c.domain(), &other)
}

pub fn prover_columns(c: &Circuit, a: &Assign) -> Columns {
    let mut cols = new_columns(c, a);
    if c.warm > 0 {
        // as if they had been used with another index before
        let other = GeneralEvaluationDomain::new(c.n() << (c.warm - 1)).unwrap();
        for w in cols.w.iter_mut() {
            w.compute_extended_evals(&other);
        }
        for i in cols.i.iter_mut() {
            i.compute_extended_evals(&other);
        }
    }
    cols
}

fn new_columns(c: &Circuit, a: &Assign) -> Columns {
    Columns {
        w: c.witness
            .iter()
            .zip(&a.w)
            .map(|(s, v)| {
                WitnessProverOracle::new(s.label.clone(), interp(c, v), v, s.permute)
            })
            .collect(),
        i: c.instance
            .iter()
            .zip(&a.i)
            .map(|(s, v)| InstanceProverOracle::new(s.label.clone(), interp(c, v), v))
            .collect(),
        x: c.fixed
            .iter()
            .zip(c.fixed_values())
            .map(|(s, v)| fixed_column(c, s.label.clone(), &v))
            .collect(),
        t: c.tables
            .iter()
            .zip(c.table_values())
            .map(|(s, v)| fixed_column(c, s.label.clone(), &v))
            .collect(),
    }
}

fn perm_info(c: &Circuit) -> PermutationInfo<F> {
    if c.dummy_info {
        PermutationInfo::dummy()
    } else {
        PermutationInfo {
            u: c.u,
            deltas: c.deltas(),
        }
    }
}

fn sigma_oracles(c: &Circuit) -> Vec<FixedProverOracle<F>> {
    c.sigma_columns()
        .iter()
        .enumerate()
        .map(|(k, v)| {
            let mut o =
                fixed_column(c, format!("sigma_{}", k), v);
            if c.register_curr {
                o.register_rotation(Rotation::curr());
            }
            o
        })
        .collect()
}

fn q_blind_oracle(c: &Circuit) -> FixedProverOracle<F> {
    let v = c.q_blind();
    let mut o = fixed_column(c, "q_blind".into(), &v);
    if c.register_curr {
        o.register_rotation(Rotation::curr());
    }
    o
}

pub struct Prover<P: Backend> {
    pub c: Rc<Circuit>,
    pk: ProverKey<'static, F, SimPc<P>>,
    pp: ProverPreprocessedInput<F, SimPc<P>>,
    /// Column objects of the last statement, reused for the next proof of it.
    objs: Option<(u64, Columns, Vos)>,
    _reclaim: Reclaim,
}

pub fn dbg<E: std::fmt::Debug>(e: E) -> String {
    let s = format!("{:?}", e);
    s.chars().take(160).collect()
}

pub type Tap = Box<dyn FnMut(&'static str, &mut [&mut dyn Any])>;

impl<P: Backend> Prover<P> {
    pub fn new(c: &Rc<Circuit>) -> Result<Self, String> {
        let k = keys::<P>(c.srs_degree(), c.srs_seed)?;
        Self::with_keys(c, &k)
    }

    pub fn with_keys(c: &Rc<Circuit>, k: &Keys<P>) -> Result<Self, String> {
        let mut rec = Reclaim(vec![]);
        let n = c.n();
        let zero = Assign {
            w: vec![vec![F::zero(); n]; c.witness.len()],
            i: vec![vec![F::zero(); n]; c.instance.len()],
        };
        let mut cols = prover_columns(c, &zero);
        let vos =
            configure(c, &mut cols.w, &mut cols.i, &mut cols.x, &mut cols.t)?;
        let lookups: Vec<&'static dyn LookupVirtualOracle<F>> = vos
            .lookups
            .into_iter()
            .map(|l| leak(&mut rec, l) as &'static dyn LookupVirtualOracle<F>)
            .collect();
        let refs: Vec<&dyn VirtualOracle<F>> =
            vos.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let vk = Indexer::<F, SimPc<P>>::index(
            &k.vk,
            &refs,
            lookups,
            &cols.w,
            &cols.i,
            &cols.x,
            c.domain(),
            &c.z_h(),
            perm_info(c),
            c.u,
        )
        .map_err(|e| format!("index: {}", dbg(e)))?;
        let pk = ProverKey::from_ck_and_vk(&k.ck, &vk);
        let pp = ProverPreprocessedInput::new(
            &cols.x,
            &sigma_oracles(c),
            &cols.t,
            &q_blind_oracle(c),
            &vk.index_info,
        );
        Ok(Prover {
            c: c.clone(),
            pk,
            pp,
            objs: None,
            _reclaim: rec,
        })
    }

    pub fn extended_size(&self) -> usize {
        self.pk.vk.index_info.extended_coset_domain.size()
    }

    fn take_objs(
        &mut self,
        id: u64,
        a: &Assign,
        fresh: bool,
    ) -> Result<(Columns, Vos), String> {
        if let Some((k, cols, vos)) = self.objs.take() {
            if k == id && !fresh {
                return Ok((cols, vos));
            }
        }
        let c = self.c.clone();
        let mut cols = prover_columns(&c, a);
        let vos =
            configure(&c, &mut cols.w, &mut cols.i, &mut cols.x, &mut cols.t)?;
        Ok((cols, vos))
    }

    /// One call of the library. The column objects stay with the node even if
    /// the call panics or the node is interrupted.
    pub fn prove(
        &mut self,
        id: u64,
        a: &Assign,
        fresh: bool,
        rng: &RngSpec,
        tap: Option<Tap>,
    ) -> Result<Proof<P>, String> {
        let (cols, vos) = self.take_objs(id, a, fresh)?;
        self.objs = Some((id, cols, vos));
        let (_, cols, vos) = self.objs.as_mut().unwrap();
        let refs: Vec<&dyn VirtualOracle<F>> =
            vos.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let mut r = SimRng::new(rng);
        zero_over_k::sim::set_callback(tap);
        let out = Tp::<P>::prove(
            &self.pk,
            &self.pp,
            &mut cols.w,
            &mut cols.i,
            &refs,
            self.c.n(),
            &mut r,
        );
        zero_over_k::sim::set_callback(None);
        out.map_err(dbg)
    }

    pub fn mock(
        &mut self,
        id: u64,
        a: &Assign,
        fresh: bool,
    ) -> Result<(), String> {
        let (cols, vos) = self.take_objs(id, a, fresh)?;
        self.objs = Some((id, cols, vos));
        let (_, cols, vos) = self.objs.as_mut().unwrap();
        let refs: Vec<&dyn VirtualOracle<F>> =
            vos.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let mut r = SimRng::new(&RngSpec::good(1));
        Mp::<P>::prove(
            &self.pk,
            &self.pp,
            &mut cols.w,
            &mut cols.i,
            &refs,
            self.c.n(),
            &mut r,
        )
        .map(|_| ())
        .map_err(dbg)
    }
}

// ------------------------------------------------------------------ verifiers

pub struct Verifier<P: Backend> {
    pub c: Rc<Circuit>,
    vk: VerifierKey<'static, F, SimPc<P>>,
    pp: VerifierPreprocessedInput<F, SimPc<P>>,
    w: Vec<WitnessVerifierOracle<F, SimPc<P>>>,
    i: Vec<InstanceVerifierOracle<F>>,
    vos: Vec<AnyVo>,
    z_h: Poly,
    _reclaim: Reclaim,
}

fn commit_fixed<P: Backend>(
    ck: &Ck<P>,
    cols: &[(String, Poly)],
) -> Result<Vec<ark_poly_commit::LabeledCommitment<Comm<P>>>, String> {
    if cols.is_empty() {
        return Ok(vec![]);
    }
    let lp: Vec<LabeledPolynomial<F, Poly>> = cols
        .iter()
        .map(|(l, p)| LabeledPolynomial::new(l.clone(), p.clone(), None, None))
        .collect();
    let (c, _) = SimPc::<P>::commit(ck, lp.iter(), None)
        .map_err(|e| format!("commit: {:?}", e))?;
    Ok(c)
}

impl<P: Backend> Verifier<P> {
    pub fn new(c: &Rc<Circuit>, inst: &[Col]) -> Result<Self, String> {
        let k = keys::<P>(c.srs_degree(), c.srs_seed)?;
        Self::with_keys(c, inst, &k)
    }

    pub fn with_keys(
        c: &Rc<Circuit>,
        inst: &[Col],
        k: &Keys<P>,
    ) -> Result<Self, String> {
        let mut rec = Reclaim(vec![]);
        let named = |cols: &[XCol], vals: Vec<Col>| -> Vec<(String, Poly)> {
            cols.iter()
                .zip(vals)
                .map(|(s, v)| (s.label.clone(), interp(c, &v)))
                .collect()
        };
        let fixed = |cm: Vec<ark_poly_commit::LabeledCommitment<Comm<P>>>| {
            cm.into_iter()
                .map(|cm| match c.fixed_ctor {
                    0 => FixedVerifierOracle::<F, SimPc<P>>::new(
                        cm.label().clone(),
                        Some(cm.commitment().clone()),
                    ),
                    1 => FixedVerifierOracle::from_commitment(cm),
                    _ => FixedVerifierOracle::from_labeled_commitment(&cm),
                })
                .collect::<Vec<_>>()
        };
        let mut x = fixed(commit_fixed::<P>(&k.ck, &named(&c.fixed, c.fixed_values()))?);
        let mut t = fixed(commit_fixed::<P>(&k.ck, &named(&c.tables, c.table_values()))?);
        let sig: Vec<(String, Poly)> = c
            .sigma_columns()
            .iter()
            .enumerate()
            .map(|(j, v)| (format!("sigma_{}", j), interp(c, v)))
            .collect();
        let mut sigma = fixed(commit_fixed::<P>(&k.ck, &sig)?);
        let qb = commit_fixed::<P>(
            &k.ck,
            &[("q_blind".to_string(), interp(c, &c.q_blind()))],
        )?;
        let mut q_blind = fixed(qb).remove(0);
        if c.register_curr {
            for s in sigma.iter_mut() {
                s.register_rotation(Rotation::curr());
            }
            q_blind.register_rotation(Rotation::curr());
        }
        let mut w: Vec<WitnessVerifierOracle<F, SimPc<P>>> = c
            .witness
            .iter()
            .map(|s| WitnessVerifierOracle::new(s.label.clone(), s.permute))
            .collect();
        let mut i: Vec<InstanceVerifierOracle<F>> = c
            .instance
            .iter()
            .zip(inst)
            .map(|(s, v)| InstanceVerifierOracle::new(s.label.clone(), interp(c, v)))
            .collect();
        let vos = configure(c, &mut w, &mut i, &mut x, &mut t)?;
        let lookups: Vec<&'static dyn LookupVirtualOracle<F>> = vos
            .lookups
            .into_iter()
            .map(|l| leak(&mut rec, l) as &'static dyn LookupVirtualOracle<F>)
            .collect();
        let z_h = c.z_h();
        let vk = {
            let refs: Vec<&dyn VirtualOracle<F>> =
                vos.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
            Indexer::<F, SimPc<P>>::index(
                &k.vk,
                &refs,
                lookups,
                &w,
                &i,
                &x,
                c.domain(),
                &z_h,
                perm_info(c),
                c.u,
            )
            .map_err(|e| format!("index: {}", dbg(e)))?
        };
        let pp = if c.u == c.n() - 1 && c.srs_extra == 1 {
            // nothing is blinded: the library's shorthand for that
            let mut pp = VerifierPreprocessedInput::new_wo_blind(x, t, sigma);
            if c.register_curr {
                pp.q_blind.register_rotation(Rotation::curr());
            }
            pp
        } else {
            VerifierPreprocessedInput::new(x, t, sigma, q_blind)
        };
        Ok(Verifier {
            c: c.clone(),
            vk,
            pp,
            w,
            i,
            vos: vos.vos,
            z_h,
            _reclaim: rec,
        })
    }

    pub fn set_instance(&mut self, inst: &[Col]) {
        for (o, v) in self.i.iter_mut().zip(inst) {
            let mut fresh =
                InstanceVerifierOracle::new(o.get_label(), interp(&self.c, v));
            for r in o.get_queried_rotations().clone() {
                fresh.register_rotation(r);
            }
            *o = fresh;
        }
    }

    pub fn verify(&mut self, proof: Proof<P>) -> Result<(), String> {
        if self.c.warm % 2 == 1 {
            // every session on a copy of the state the last one left
            self.pp = self.pp.clone();
            self.w = self.w.to_vec();
            self.vk = self.vk.clone();
        }
        let refs: Vec<&dyn VirtualOracle<F>> =
            self.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        Tp::<P>::verify(
            &self.vk,
            &mut self.pp,
            proof,
            &mut self.w,
            &mut self.i,
            &refs,
            self.c.n(),
            &self.z_h,
        )
        .map_err(dbg)
    }
}

/// What is wrong with a party's list of columns.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fit {
    Missing,
    Renamed,
    Doubled,
    Swapped,
}

fn unfit<T>(v: &mut Vec<T>, idx: usize, how: Fit, renamed: impl Fn(&T) -> T, copy: impl Fn(&T) -> T) -> bool {
    if v.is_empty() {
        return false;
    }
    let i = idx % v.len();
    match how {
        Fit::Missing => {
            v.remove(i);
        }
        Fit::Renamed => v[i] = renamed(&v[i]),
        Fit::Doubled => {
            let c = copy(&v[i]);
            v.push(c)
        }
        Fit::Swapped => {
            if v.len() < 2 {
                return false;
            }
            let j = (i + 1) % v.len();
            v.swap(i, j);
        }
    }
    true
}

const OTHER_NAME: &str = "no such column";

impl<P: Backend> Prover<P> {
    /// A proof attempt with a list of columns that does not fit the circuit.
    pub fn prove_unfit(
        &mut self,
        a: &Assign,
        instance: bool,
        idx: usize,
        how: Fit,
        rng: &RngSpec,
    ) -> Option<Result<Proof<P>, String>> {
        let (mut cols, vos) = self.take_objs(u64::MAX, a, true).ok()?;
        let c = self.c.clone();
        let ok = if instance {
            unfit(
                &mut cols.i,
                idx,
                how,
                |o| {
                    let mut n = InstanceProverOracle::new(OTHER_NAME, interp(&c, o.evals()), o.evals());
                    for r in o.get_queried_rotations() {
                        n.register_rotation(*r);
                    }
                    n
                },
                |o| o.clone(),
            )
        } else {
            unfit(
                &mut cols.w,
                idx,
                how,
                |o| {
                    let permute = c.witness[idx % c.witness.len()].permute;
                    let mut n =
                        WitnessProverOracle::new(OTHER_NAME, interp(&c, o.evals()), o.evals(), permute);
                    for r in o.get_queried_rotations() {
                        n.register_rotation(*r);
                    }
                    n
                },
                |o| o.clone(),
            )
        };
        if !ok {
            return None;
        }
        let refs: Vec<&dyn VirtualOracle<F>> =
            vos.vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let mut r = SimRng::new(rng);
        Some(
            Tp::<P>::prove(
                &self.pk,
                &self.pp,
                &mut cols.w,
                &mut cols.i,
                &refs,
                self.c.n(),
                &mut r,
            )
            .map_err(dbg),
        )
    }
}

impl<P: Backend> Verifier<P> {
    /// Makes the lists of columns unfit for the circuit. Kinds: 0 witness,
    /// 1 instance, 2 fixed, 3 table, 4 wiring.
    pub fn unfit(&mut self, inst: &[Col], kind: u8, idx: usize, how: Fit) -> bool {
        let c = self.c.clone();
        let fx = |o: &FixedVerifierOracle<F, SimPc<P>>| {
            let mut n = FixedVerifierOracle::new(OTHER_NAME, o.get_commitment().ok().cloned());
            for r in o.get_queried_rotations() {
                n.register_rotation(*r);
            }
            n
        };
        let fc = |o: &FixedVerifierOracle<F, SimPc<P>>| o.clone();
        match kind {
            0 => unfit(
                &mut self.w,
                idx,
                how,
                |o| {
                    let mut n = WitnessVerifierOracle::new(
                        OTHER_NAME,
                        c.witness[idx % c.witness.len()].permute,
                    );
                    for r in o.get_queried_rotations() {
                        n.register_rotation(*r);
                    }
                    n
                },
                |o| o.clone(),
            ),
            1 => unfit(
                &mut self.i,
                idx,
                how,
                |o| {
                    let mut n =
                        InstanceVerifierOracle::new(OTHER_NAME, interp(&c, &inst[idx % inst.len()]));
                    for r in o.get_queried_rotations() {
                        n.register_rotation(*r);
                    }
                    n
                },
                |o| {
                    let k = c.instance.iter().position(|i| i.label == o.get_label()).unwrap();
                    let mut n =
                        InstanceVerifierOracle::new(o.get_label(), interp(&c, &inst[k]));
                    for r in o.get_queried_rotations() {
                        n.register_rotation(*r);
                    }
                    n
                },
            ),
            2 => unfit(&mut self.pp.fixed_oracles, idx, how, fx, fc),
            3 => unfit(&mut self.pp.table_oracles, idx, how, fx, fc),
            _ => unfit(&mut self.pp.permutation_oracles, idx, how, fx, fc),
        }
    }
}

#[allow(dead_code)]
fn _t(o: &FixedProverOracle<F>) -> usize {
    o.evals().len()
}
