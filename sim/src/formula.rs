//! Formulas, each built by every node for itself: as generic formula that is
//! then put on concrete columns, and directly on the columns. All have to mean
//! what the reference evaluator says, over numbers as well as polynomials.
use crate::circuit::*;
use crate::node::{concrete, rotation, vex, Backend};
use crate::prng::Prng;
use crate::seam::{session, Outcome, Plan};
use crate::world::{Step, W};
use crate::{Poly, F};
use ark_ff::Zero;
use ark_poly::{Polynomial, UVPolynomial};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::instance::InstanceProverOracle;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::witness::WitnessProverOracle;

type Key = (u8, String, Rotation);

fn key(q: &OracleQuery) -> Key {
    let t = match q.oracle_type {
        OracleType::Witness => 0,
        OracleType::Instance => 1,
        OracleType::Fixed => 2,
    };
    (t, q.label.clone(), q.rotation)
}

/// The columns of a node, by name, in the node's own objects.
fn columns(names: &[Vec<String>; 3]) -> (Vec<WitnessProverOracle<F>>, Vec<InstanceProverOracle<F>>, Vec<InstanceProverOracle<F>>) {
    let z = vec![F::zero(); 4];
    let w = names[0]
        .iter()
        .map(|l| WitnessProverOracle::new(l.clone(), Poly::zero(), &z, false))
        .collect();
    let i = |k: usize| -> Vec<InstanceProverOracle<F>> {
        names[k]
            .iter()
            .map(|l| InstanceProverOracle::new(l.clone(), Poly::zero(), &z))
            .collect()
    };
    (w, i(1), i(2))
}

pub fn run<P: Backend>(w: &W<P>, names: &[Vec<String>; 3], forms: &[Ex], seed: u64) {
    for (k, e) in forms.iter().enumerate() {
        let (o, _) = session(&Plan::default(), vec![], || one(e, names, seed ^ k as u64));
        let mut w = w.borrow_mut();
        w.judged();
        let bad = match o {
            Outcome::Done(x) => x,
            Outcome::Panic(e) => Some(("building or evaluating a formula panics", e)),
            Outcome::Crash => None,
        };
        w.event(&format!("formula ok={}", bad.is_none()), format!("{:?}", e).as_bytes());
        w.bump("probe.formula");
        if let Some((class, d)) = bad {
            let instead = Step::Formulas { names: names.clone(), forms: vec![e.clone()], seed: seed ^ k as u64 };
            w.fail(class, d, Some(instead));
            return;
        }
    }
}

fn one(e: &Ex, names: &[Vec<String>; 3], seed: u64) -> Option<(&'static str, String)> {
    let (w, i, x) = columns(names);
    let generic = vex(e).to_expression(&w, &i, &x);
    let own = concrete(e, names);
    let mut p = Prng::derive(seed, "formula");
    let mut qs = vec![];
    e.queries(&mut qs);
    let id = |t: Ty, k: usize, r: i32| -> Key {
        let t = match t {
            Ty::W => 0u8,
            Ty::I => 1,
            Ty::X => 2,
        };
        (t, names[t as usize][k].clone(), rotation(r))
    };
    let want: BTreeSet<Key> = qs.iter().map(|&(t, k, r)| id(t, k, r)).collect();
    // columns of random degrees
    let mut degs = BTreeMap::new();
    let polys: BTreeMap<Key, Poly> = want
        .iter()
        .map(|k| {
            // a column has one degree wherever it is read
            let d = *degs.entry((k.0, k.1.clone())).or_insert_with(|| p.below(4));
            let mut c: Vec<F> = (0..=d).map(|_| p.value()).collect();
            c[d] = p.nonzero();
            (k.clone(), Poly::from_coefficients_vec(c))
        })
        .collect();
    let z = p.field();
    let values: BTreeMap<Key, F> = polys.iter().map(|(k, v)| (k.clone(), v.evaluate(&z))).collect();
    let truth = e.eval(&|t, k, r| values[&id(t, k, r)]);
    for (how, x) in [("generic", &generic), ("own", &own), ("copied", &generic.clone())] {
        let seen = RefCell::new(BTreeSet::new());
        let unknown = Cell::new(false);
        let get = |q: &OracleQuery| -> F {
            let k = key(q);
            let v = values.get(&k).copied();
            unknown.set(unknown.get() || v.is_none());
            seen.borrow_mut().insert(k);
            v.unwrap_or_else(F::zero)
        };
        let v = x.evaluate(&|c: F| c, &get, &|a: F| -a, &|a: F, b: F| a + b, &|a: F, b: F| a * b, &|a: F, s: F| a * s);
        if unknown.get() {
            return Some(("a formula reads what was not written in it", format!("{}: {:?}", how, e)));
        }
        if v != truth {
            return Some(("a formula's value is not what was written", format!("{}: {:?}", how, e)));
        }
        // over polynomials
        let v = x.evaluate(
            &|c: F| Poly::from_coefficients_vec(vec![c]),
            &|q: &OracleQuery| polys[&key(q)].clone(),
            &|a: Poly| -a,
            &|a: Poly, b: Poly| &a + &b,
            &|a: Poly, b: Poly| a.naive_mul(&b),
            &|a: Poly, s: F| &a * s,
        );
        if v.evaluate(&z) != truth {
            return Some(("a formula's polynomial is not what was written", format!("{}: {:?}", how, e)));
        }
        let d = match x.degree(&|q| Ok(polys[&key(q)].degree())) {
            Ok(d) => d,
            Err(er) => return Some(("no degree", format!("{}: {:?}", how, er))),
        };
        if v.degree() > d {
            let t = format!("{}: {} announced, {} true: {:?}", how, d, v.degree(), e);
            return Some(("the degree announced is too small", t));
        }
    }
    None
}
