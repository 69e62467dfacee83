//! A simulated deployment: its nodes, the messages between them, the steps of
//! a scenario, and the monitors that judge what happened.
use crate::circuit::*;
use crate::fieldkzg::FieldKzg;
use crate::io::{Io, SimRead, SimWrite, Stream};
use crate::node::*;
use crate::proc::Zygote;
use crate::seam::*;
use crate::tamper::{self, Tamper};
use crate::{Kzg, F};
use ark_ff::Zero;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stmt {
    pub circuit: usize,
    pub fill: u64,
    #[serde(default)]
    pub over: Vec<Override>,
    /// public inputs of another statement instead of the computed ones
    #[serde(default)]
    pub inst_from: Option<usize>,
    /// how this statement differs from the one it was derived from
    #[serde(default)]
    pub diff: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Timed {
    /// simulated milliseconds
    pub t: u64,
    pub step: Step,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Prove {
        node: u8,
        stmt: usize,
        rng: RngSpec,
        fresh: bool,
        plan: Plan,
        msg: u32,
    },
    Deliver {
        node: u8,
        stmt: usize,
        msg: u32,
        tamper: Tamper,
        plan: Plan,
    },
    /// One verifier receives many differently damaged copies of a message.
    Sweep {
        node: u8,
        stmt: usize,
        msg: u32,
        /// 0 every claimed value and commitment, 1 list lengths, 2 random,
        /// 3 truncations, 4 length prefixes, 5 pairs of claims
        kind: u8,
        salt: u64,
        max: usize,
    },
    Restart {
        node: u8,
    },
    /// `inner` happens while `outer` is at its n-th seam crossing.
    Nested {
        at: u64,
        outer: Box<Step>,
        inner: Box<Step>,
    },
    /// Sessions on separate threads; the scheduler interleaves them at seam
    /// crossings.
    Threads {
        seed: u64,
        den: usize,
        jobs: Vec<Job>,
    },
    Mock {
        node: u8,
        stmt: usize,
        fresh: bool,
    },
    /// Mock prover against real prover and verifier.
    MockAgree {
        node: u8,
        stmt: usize,
        rng: RngSpec,
    },
    Io {
        node: u8,
        stmt: usize,
        msgs: Vec<u32>,
        write: Io,
        read: Io,
        uncompressed: bool,
    },
    /// Formulas built by a node, in every way there is.
    Formulas {
        names: [Vec<String>; 3],
        forms: Vec<Ex>,
        seed: u64,
    },
    /// Contributions of several parties are folded by aggregators.
    Fold {
        aggs: usize,
        parties: Vec<crate::fold::Party>,
        ops: Vec<crate::fold::Op>,
    },
    /// Columns opened at many points, on their own.
    Opens {
        k: u32,
        degree: usize,
        cols: Vec<crate::mopen::MCol>,
        ops: Vec<crate::mopen::MOp>,
    },
    /// Key setup with a failing backend.
    Setup {
        degree: usize,
        seed: u64,
        plan: Plan,
    },
    /// Proving with keys for fewer coefficients than the circuit needs.
    SmallSrs {
        stmt: usize,
        degree: usize,
        rng: RngSpec,
    },
    /// Public inputs chosen after seeing the proof and its challenges.
    PickInstance {
        node: u8,
        stmt: usize,
        msg: u32,
        col: usize,
        salt: u64,
    },
    /// A prover or verifier whose list of columns does not fit the circuit.
    /// Kinds: 0 witness, 1 instance, 2 fixed, 3 table, 4 wiring.
    Unfit {
        stmt: usize,
        msg: u32,
        prover: bool,
        kind: u8,
        idx: usize,
        how: Fit,
        rng: RngSpec,
    },
    Blinding {
        stmt: usize,
        a: RngSpec,
        b: RngSpec,
        probes: u32,
        salt: u64,
    },
    Transcript {
        stmt: usize,
        rng: RngSpec,
        slots: usize,
        salt: u64,
    },
    Attack {
        node: u8,
        stmt: usize,
        rng: RngSpec,
        spec: crate::attack::Spec,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Job {
    Prove { stmt: usize, rng: RngSpec, times: u32 },
    Verify { stmt: usize, msg: u32, tamper: Tamper, times: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub kzg: bool,
    pub circuits: Vec<Circuit>,
    pub stmts: Vec<Stmt>,
    pub steps: Vec<Timed>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Found {
    pub class: String,
    pub detail: String,
    pub step: usize,
    /// A simpler step that shows the same thing.
    pub instead: Option<Step>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Report {
    pub found: Option<Found>,
    pub counters: BTreeMap<String, u64>,
    /// hash of everything that happened
    pub trace: u64,
    /// hash of the kind of things that happened
    pub shape: u64,
    pub sim_ms: u64,
    /// what this property's monitor decided on this run
    pub judged: u64,
    pub events: Vec<String>,
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone)]
pub struct Msg {
    pub bytes: Vec<u8>,
    pub stmt: usize,
    /// made without faults for a satisfied statement
    pub honest: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Undecodable(String),
    Reject(String),
    Panic(String),
    Crash,
}
impl Verdict {
    pub fn class(&self) -> &'static str {
        match self {
            Verdict::Accept => "accept",
            Verdict::Undecodable(_) => "undecodable",
            Verdict::Reject(_) => "reject",
            Verdict::Panic(_) => "panic",
            Verdict::Crash => "crash",
        }
    }
}

pub struct World<P: Backend> {
    pub sc: Rc<Scenario>,
    pub circuits: Vec<Rc<Circuit>>,
    pub assigns: Vec<Rc<Assign>>,
    pub viols: Vec<Vec<Violation>>,
    provers: BTreeMap<(u8, usize), Prover<P>>,
    verifiers: BTreeMap<(u8, usize), (usize, Verifier<P>)>,
    pub msgs: BTreeMap<u32, Msg>,
    zyg: Option<Zygote>,
    pristine: BTreeMap<Vec<u8>, Result<Vec<u8>, String>>,
    pub rep: Report,
    cur: usize,
    keep_events: bool,
}

pub type W<P> = Rc<RefCell<World<P>>>;

pub fn assign_of(sc: &Scenario, i: usize) -> Assign {
    let s = &sc.stmts[i];
    let mut a = sc.circuits[s.circuit].fill(s.fill, &s.over);
    if let Some(j) = s.inst_from {
        a.i = assign_of(sc, j).i;
    }
    a
}

impl<P: Backend> World<P> {
    pub fn prop(&self) -> &str {
        &self.sc.prop
    }
    pub fn bump(&mut self, k: &str) {
        *self.rep.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.rep.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn event(&mut self, kind: &str, detail: &[u8]) {
        self.rep.trace = fnv(fnv(self.rep.trace, kind.as_bytes()), detail);
        self.rep.shape = fnv(self.rep.shape, kind.as_bytes());
        if self.keep_events {
            let s = format!("t={}ms {}", self.rep.sim_ms, kind);
            self.rep.events.push(s);
        }
    }
    pub fn fail(&mut self, class: &str, detail: String, instead: Option<Step>) {
        if self.rep.found.is_none() {
            self.rep.found = Some(Found {
                class: class.into(),
                detail,
                step: self.cur,
                instead,
            });
        }
    }
    pub fn judged(&mut self) {
        self.rep.judged += 1;
    }
    pub fn satisfied(&self, stmt: usize) -> bool {
        self.viols[stmt].is_empty()
    }
    pub fn same_statement(&self, a: usize, b: usize) -> bool {
        a == b
            || (self.circuits[self.sc.stmts[a].circuit]
                == self.circuits[self.sc.stmts[b].circuit]
                && self.assigns[a].i == self.assigns[b].i)
    }
    fn note_log(&mut self, what: &str, log: &Log) {
        self.add("seam.crossings", log.ops);
        self.add("seam.backend_calls", log.pc_calls);
        self.add("seam.random_draws", log.rng_draws);
        self.add("sched.thread_switches", log.switches);
        self.bump(&format!("session.{}", what));
        if let Some(i) = &log.injected {
            self.bump(&format!("fault.{}", i));
        }
    }
}

// --------------------------------------------------------------- references

#[derive(Serialize, Deserialize)]
enum Req {
    Prove { stmt: usize, rng: RngSpec },
    Verify { stmt: usize, bytes: Vec<u8> },
}

fn answer<P: Backend>(sc: &Scenario, req: &[u8]) -> Vec<u8> {
    let req: Req = match serde_json::from_slice(req) {
        Ok(r) => r,
        Err(_) => return b"?".to_vec(),
    };
    match req {
        Req::Prove { stmt, rng } => {
            let c = Rc::new(sc.circuits[sc.stmts[stmt].circuit].clone());
            let a = assign_of(sc, stmt);
            let (o, _) = session(&Plan::default(), vec![], || {
                let mut p = Prover::<P>::new(&c)?;
                p.prove(1, &a, true, &rng, None).map(|p| encode(&p))
            });
            match o {
                Outcome::Done(Ok(b)) => [vec![1], b].concat(),
                Outcome::Done(Err(e)) => [vec![0], e.into_bytes()].concat(),
                Outcome::Panic(e) => [vec![2], e.into_bytes()].concat(),
                Outcome::Crash => vec![3],
            }
        }
        Req::Verify { stmt, bytes } => {
            let c = Rc::new(sc.circuits[sc.stmts[stmt].circuit].clone());
            let a = assign_of(sc, stmt);
            let (o, _) = session(&Plan::default(), vec![], || {
                let mut v = Verifier::<P>::new(&c, &a.i)?;
                Ok::<_, String>(match decode::<P>(&bytes) {
                    Err(_) => "undecodable",
                    Ok(p) => match v.verify(p) {
                        Ok(()) => "accept",
                        Err(_) => "reject",
                    },
                })
            });
            match o {
                Outcome::Done(Ok(s)) => s.into(),
                Outcome::Done(Err(_)) => "unusable".into(),
                Outcome::Panic(_) => "panic".into(),
                Outcome::Crash => "crash".into(),
            }
        }
    }
}

fn pristine<P: Backend>(w: &W<P>, req: &Req) -> Result<Vec<u8>, String> {
    let r = serde_json::to_vec(req).unwrap();
    let mut z = {
        let mut w = w.borrow_mut();
        if let Some(x) = w.pristine.get(&r) {
            return x.clone();
        }
        match w.zyg.take() {
            Some(z) => z,
            None => return Err("no reference process".into()),
        }
    };
    let out = z.ask(&r);
    let mut w = w.borrow_mut();
    w.zyg = Some(z);
    w.pristine.insert(r, out.clone());
    out
}

// -------------------------------------------------------------- node access

pub fn take_prover<P: Backend>(
    w: &W<P>,
    node: u8,
    circuit: usize,
) -> Result<Prover<P>, String> {
    if let Some(p) = w.borrow_mut().provers.remove(&(node, circuit)) {
        return Ok(p);
    }
    let c = w.borrow().circuits[circuit].clone();
    let (o, _) = session(&Plan::default(), vec![], || Prover::<P>::new(&c));
    let r = match o {
        Outcome::Done(r) => r,
        Outcome::Panic(e) => Err(format!("panic: {}", e)),
        Outcome::Crash => Err("crash".into()),
    };
    if let Err(e) = &r {
        let mut w = w.borrow_mut();
        w.bump("node.unusable_circuit");
        if w.prop() == "C01" || w.prop() == "C17" {
            let e = e.clone();
            w.fail("circuit refused", e, None);
        }
    }
    r
}

pub fn take_verifier<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
) -> Result<Verifier<P>, String> {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let a = w.borrow().assigns[stmt].clone();
    let old = w.borrow_mut().verifiers.remove(&(node, circuit));
    if let Some((s, mut v)) = old {
        if s != stmt {
            v.set_instance(&a.i);
        }
        return Ok(v);
    }
    let c = w.borrow().circuits[circuit].clone();
    let (o, _) =
        session(&Plan::default(), vec![], || Verifier::<P>::new(&c, &a.i));
    let r = match o {
        Outcome::Done(r) => r,
        Outcome::Panic(e) => Err(format!("panic: {}", e)),
        Outcome::Crash => Err("crash".into()),
    };
    if let Err(e) = &r {
        let mut w = w.borrow_mut();
        w.bump("node.unusable_circuit");
        if w.prop() == "C01" || w.prop() == "C17" {
            let e = e.clone();
            w.fail("circuit refused", e, None);
        }
    }
    r
}

pub fn put_verifier<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    v: Verifier<P>,
) {
    let c = w.borrow().sc.stmts[stmt].circuit;
    w.borrow_mut().verifiers.insert((node, c), (stmt, v));
}
pub fn put_prover<P: Backend>(w: &W<P>, node: u8, circuit: usize, p: Prover<P>) {
    w.borrow_mut().provers.insert((node, circuit), p);
}

// -------------------------------------------------------------------- steps

fn exec<P: Backend>(w: &W<P>, step: &Step, yields: Vec<(u64, YieldFn)>) {
    if w.borrow().rep.found.is_some() {
        return;
    }
    match step {
        Step::Prove { node, stmt, rng, fresh, plan, msg } => {
            prove(w, *node, *stmt, rng, *fresh, plan, *msg, yields)
        }
        Step::Deliver { node, stmt, msg, tamper, plan } => {
            deliver(w, *node, *stmt, *msg, tamper, plan, yields)
        }
        Step::Sweep { node, stmt, msg, kind, salt, max } => {
            sweep(w, *node, *stmt, *msg, *kind, *salt, *max)
        }
        Step::Restart { node } => {
            let mut w = w.borrow_mut();
            let n = *node;
            w.provers.retain(|k, _| k.0 != n);
            w.verifiers.retain(|k, _| k.0 != n);
            w.bump("fault.restart");
            w.event("restart", &[n]);
        }
        Step::Nested { at, outer, inner } => {
            let w2 = w.clone();
            let inner = inner.clone();
            let y: YieldFn = Box::new(move || exec(&w2, &inner, vec![]));
            exec(w, outer, vec![(*at, y)]);
        }
        Step::Threads { seed, den, jobs } => threads(w, *seed, *den, jobs),
        Step::Mock { node, stmt, fresh } => {
            mock(w, *node, *stmt, *fresh);
        }
        Step::MockAgree { node, stmt, rng } => {
            mock_agree(w, *node, *stmt, rng)
        }
        Step::Io { node, stmt, msgs, write, read, uncompressed } => {
            storage(w, *node, *stmt, msgs, write, read, *uncompressed)
        }
        Step::Formulas { names, forms, seed } => crate::formula::run(w, names, forms, *seed),
        Step::Opens { k, degree, cols, ops } => crate::mopen::run(w, *k, *degree, cols, ops),
        Step::Fold { aggs, parties, ops } => crate::fold::run(w, *aggs, parties, ops),
        Step::Setup { degree, seed, plan } => {
            setup_step(w, *degree, *seed, plan)
        }
        Step::SmallSrs { stmt, degree, rng } => {
            small_srs(w, *stmt, *degree, rng)
        }
        Step::Unfit { stmt, msg, prover, kind, idx, how, rng } => {
            unfit(w, *stmt, *msg, *prover, *kind, *idx, *how, rng)
        }
        Step::PickInstance { node, stmt, msg, col, salt } => {
            pick_instance(w, *node, *stmt, *msg, *col, *salt)
        }
        Step::Blinding { stmt, a, b, probes, salt } => {
            crate::probe::blinding(w, *stmt, a, b, *probes, *salt)
        }
        Step::Transcript { stmt, rng, slots, salt } => {
            crate::probe::transcript(w, *stmt, rng, *slots, *salt)
        }
        Step::Attack { node, stmt, rng, spec } => {
            crate::attack::run(w, *node, *stmt, rng, spec)
        }
    }
}

pub fn prove<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    rng: &RngSpec,
    fresh: bool,
    plan: &Plan,
    msg: u32,
    yields: Vec<(u64, YieldFn)>,
) {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let a = w.borrow().assigns[stmt].clone();
    let mut p = match take_prover(w, node, circuit) {
        Ok(p) => p,
        Err(_) => return,
    };
    let (o, log) = session(plan, yields, || {
        p.prove(stmt as u64, &a, fresh, rng, None).map(|p| encode(&p))
    });
    put_prover(w, node, circuit, p);
    let prop = w.borrow().prop().to_string();
    let satisfied = w.borrow().satisfied(stmt);
    let fault = match &log.injected {
        Some(s) => !s.starts_with("yield"),
        None => false,
    };
    {
        let mut w = w.borrow_mut();
        w.note_log("prove", &log);
        let (k, d): (String, Vec<u8>) = match &o {
            Outcome::Done(Ok(b)) => ("prove ok".into(), b.clone()),
            Outcome::Done(Err(e)) => (format!("prove error {}", e), vec![]),
            Outcome::Panic(e) => (
                format!("prove panic {}", e.chars().take(20).collect::<String>()),
                vec![],
            ),
            Outcome::Crash => ("prove crash".into(), vec![]),
        };
        let k = format!("{} [{}] by {} fresh={} inj={:?}", k, stmt, node, fresh, log.injected);
        w.event(&k, &d);
    }
    if let Outcome::Done(Ok(b)) = &o {
        w.borrow_mut().msgs.insert(
            msg,
            Msg {
                bytes: b.clone(),
                stmt,
                honest: satisfied && !fault,
            },
        );
    }
    let clean = satisfied && !fault;
    match prop.as_str() {
        "C01" | "C17" if clean => {
            let mut w = w.borrow_mut();
            w.judged();
            match &o {
                Outcome::Done(Ok(_)) => {}
                Outcome::Done(Err(e)) => {
                    w.fail("proving failed", e.clone(), None)
                }
                Outcome::Panic(e) => {
                    w.fail("proving panicked", e.clone(), None)
                }
                Outcome::Crash => {}
            }
        }
        "C18" if !fault => {
            let mut w = w.borrow_mut();
            w.judged();
            match &o {
                Outcome::Panic(e) if satisfied => w.fail("proving panicked", e.clone(), None),
                Outcome::Done(Err(e)) if satisfied => w.fail("proving failed", e.clone(), None),
                // the prover's own sanity checks are assertions
                Outcome::Panic(_) | Outcome::Done(Err(_)) => w.bump("verdict.prover refuses"),
                Outcome::Done(Ok(_)) if !satisfied => w.bump("verdict.prover goes on"),
                _ => {}
            }
        }
        "C08" if clean => {
            let r = pristine(w, &Req::Prove { stmt, rng: rng.clone() });
            let mut w = w.borrow_mut();
            if let Ok(r) = r {
                if r.first() == Some(&1) {
                    w.judged();
                    match &o {
                        Outcome::Done(Ok(b)) if b[..] == r[1..] => {}
                        Outcome::Done(Ok(_)) => w.fail(
                            "proof differs from a fresh process's",
                            String::new(),
                            None,
                        ),
                        Outcome::Done(Err(e)) => w.fail(
                            "proving fails where a fresh process succeeds",
                            e.clone(),
                            None,
                        ),
                        Outcome::Panic(e) => w.fail(
                            "proving panics where a fresh process succeeds",
                            e.clone(),
                            None,
                        ),
                        Outcome::Crash => {}
                    }
                } else {
                    w.bump("skipped.reference_cannot_prove");
                }
            } else {
                w.bump("skipped.reference_died");
            }
        }
        "C11" if satisfied => {
            let mut w = w.borrow_mut();
            let pc = log.injected.as_ref().map_or(false, |s| s.starts_with("Error"));
            if pc {
                w.judged();
                match &o {
                    Outcome::Done(Err(_)) => {}
                    Outcome::Done(Ok(_)) => w.fail(
                        "proof returned despite a backend error",
                        log.injected.clone().unwrap(),
                        None,
                    ),
                    Outcome::Panic(e) => w.fail(
                        "prover panics on a backend error",
                        format!("{}: {}", log.injected.clone().unwrap(), e),
                        None,
                    ),
                    Outcome::Crash => {}
                }
            } else if clean {
                w.judged();
                match &o {
                    Outcome::Done(Ok(_)) => {}
                    x => {
                        let t = format!("{:?}", x.clone().map(|r| r.err()));
                        // only a failure of re-use counts here
                        let before = w
                            .rep
                            .counters
                            .keys()
                            .any(|k| k.starts_with("fault.Error"));
                        if before {
                            w.fail("objects unusable after a backend error", t, None)
                        } else {
                            w.bump("skipped.cannot_prove");
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

fn check<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    bytes: &[u8],
    plan: &Plan,
    yields: Vec<(u64, YieldFn)>,
) -> Option<(Verdict, Log, Option<Vec<u8>>)> {
    let mut v = take_verifier(w, node, stmt).ok()?;
    let re: RefCell<Option<Vec<u8>>> = RefCell::new(None);
    let (o, log) = session(plan, yields, || match decode::<P>(bytes) {
        Err(e) => Verdict::Undecodable(e),
        Ok(p) => {
            *re.borrow_mut() = Some(encode(&p));
            match v.verify(p) {
                Ok(()) => Verdict::Accept,
                Err(e) => Verdict::Reject(e),
            }
        }
    });
    put_verifier(w, node, stmt, v);
    let verdict = match o {
        Outcome::Done(v) => v,
        Outcome::Panic(e) => Verdict::Panic(e),
        Outcome::Crash => Verdict::Crash,
    };
    {
        let mut w = w.borrow_mut();
        w.note_log("verify", &log);
        w.bump(&format!("verdict.{}", verdict.class()));
        w.event(
            &format!(
                "deliver -> {} [{}] at {} inj={:?}",
                verdict.class(),
                stmt,
                node,
                log.injected
            ),
            bytes,
        );
    }
    Some((verdict, log, re.into_inner()))
}

fn deliver<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    msg: u32,
    t: &Tamper,
    plan: &Plan,
    yields: Vec<(u64, YieldFn)>,
) {
    let m = match w.borrow().msgs.get(&msg) {
        Some(m) => m.clone(),
        None => return,
    };
    let bytes = tampered(w, &m, t);
    let (v, log, re) = match check(w, node, stmt, &bytes, plan, yields) {
        Some(x) => x,
        None => return,
    };
    judge(w, stmt, &m, &bytes, re, &v, &log, None);
}

fn tampered<P: Backend>(w: &W<P>, m: &Msg, t: &Tamper) -> Vec<u8> {
    if *t == Tamper::None {
        return m.bytes.clone();
    }
    let w0 = w.borrow();
    let (o, _) = session(&Plan::default(), vec![], || {
        tamper::apply::<P>(&m.bytes, t, &|k| {
            let ks: Vec<&Msg> = w0.msgs.values().collect();
            w0.msgs
                .get(&k)
                .or_else(|| ks.get(k as usize % ks.len().max(1)).copied())
                .map(|m| m.bytes.clone())
        })
    });
    drop(w0);
    let b = o.done().unwrap_or_else(|| m.bytes.clone());
    if b != m.bytes {
        let name = format!("{:?}", t);
        let name: String =
            name.chars().take_while(|c| c.is_alphanumeric()).collect();
        w.borrow_mut().bump(&format!("fault.tamper.{}", name));
    }
    b
}

fn judge<P: Backend>(
    w: &W<P>,
    stmt: usize,
    m: &Msg,
    bytes: &[u8],
    re: Option<Vec<u8>>,
    v: &Verdict,
    log: &Log,
    instead: Option<Step>,
) {
    let same = w.borrow().same_statement(m.stmt, stmt);
    let altered = re.as_ref().map_or(true, |r| *r != m.bytes);
    let pc = log.injected.as_ref().map_or(false, |s| !s.starts_with("yield") && !s.starts_with("crash"));
    let faulted = pc || *v == Verdict::Crash;
    let accept = *v == Verdict::Accept;
    let prop = w.borrow().prop().to_string();
    let clean = m.honest && same && !altered && bytes == &m.bytes[..] && !faulted;
    let shown = || format!("{:?}", v);
    match prop.as_str() {
        "C01" | "C17" if clean => {
            let mut w = w.borrow_mut();
            w.judged();
            if !accept {
                w.fail("honest proof not accepted", shown(), instead);
            }
        }
        "C18" if same && !altered && bytes == &m.bytes[..] && !faulted => {
            let mut w = w.borrow_mut();
            let good = w.satisfied(m.stmt);
            if good && !m.honest {
                return;
            }
            w.judged();
            match v {
                Verdict::Panic(e) => w.fail("verifier panics", e.clone(), instead),
                Verdict::Accept if !good => w.fail("proof of an unsatisfied statement accepted", String::new(), instead),
                Verdict::Accept => {}
                _ if good => w.fail("honest proof not accepted", shown(), instead),
                _ => {}
            }
        }
        "C02" if altered && m.honest && !faulted => {
            let mut w = w.borrow_mut();
            // spliced so that another valid proof came out whole
            let other: Vec<usize> = w
                .msgs
                .values()
                .filter(|o| o.honest && re.as_ref() == Some(&o.bytes))
                .map(|o| o.stmt)
                .collect();
            if other.iter().any(|o| w.same_statement(*o, stmt)) {
                w.bump("skipped.became_another_valid_proof");
                return;
            }
            w.judged();
            if accept {
                w.fail("altered proof accepted", String::new(), instead);
            }
        }
        "C06" if m.honest && same && !faulted => {
            let (a, b) = match (decode::<P>(&m.bytes), re.and_then(|r| decode::<P>(&r).ok())) {
                (Ok(a), Some(b)) => (a, b),
                _ => return,
            };
            let (mut a, mut b) = (a, b);
            let claims = (0..9u8).any(|f| {
                tamper::scalars::<P>(&mut a, f).to_vec()
                    != tamper::scalars::<P>(&mut b, f).to_vec()
            });
            let opening = tamper::field_len::<P>(&mut a, 9) != tamper::field_len::<P>(&mut b, 9);
            let same_comms = (10..15u8).all(|f| {
                tamper::comms::<P>(&mut a, f).iter().map(encode).collect::<Vec<_>>()
                    == tamper::comms::<P>(&mut b, f).iter().map(encode).collect::<Vec<_>>()
            });
            if same_comms && (claims || opening) {
                let mut w = w.borrow_mut();
                w.judged();
                if accept {
                    let c = if claims { "false claim accepted" } else { "surplus or missing opening data accepted" };
                    w.fail(c, String::new(), instead);
                }
            }
        }
        "C07" if !faulted => {
            let r = pristine(w, &Req::Verify { stmt, bytes: bytes.to_vec() });
            let mut w = w.borrow_mut();
            let mine = v.class();
            match r {
                Ok(r) => {
                    let r = String::from_utf8_lossy(&r).to_string();
                    if r == "unusable" {
                        return;
                    }
                    w.judged();
                    let acc = |s: &str| s == "accept";
                    if acc(&r) != acc(mine) {
                        w.fail(
                            "verdict depends on history",
                            format!("fresh verifier: {}, this one: {} ({})", r, mine, shown()),
                            instead,
                        );
                    }
                }
                Err(_) => w.bump("skipped.reference_died"),
            }
        }
        "C09" if !faulted => {
            let mut w = w.borrow_mut();
            w.judged();
            if let Verdict::Panic(e) = v {
                let c = if re.is_some() { "verifier panics" } else { "decoding panics" };
                w.fail(c, e.clone(), instead);
                return;
            }
            if accept && m.honest && same {
                if let (Ok(mut a), Some(Ok(mut b))) = (decode::<P>(&m.bytes), re.map(|r| decode::<P>(&r))) {
                    if tamper::shape::<P>(&mut a) != tamper::shape::<P>(&mut b) {
                        w.fail("proof with parts missing, surplus or misplaced accepted", String::new(), instead);
                    }
                }
            }
        }
        "C10" if !same && m.honest && !faulted => {
            let mut w = w.borrow_mut();
            let diff = w.sc.stmts[stmt].diff.clone();
            if accept {
                // a proof whose constraints vanish identically really is a
                // proof of both statements
                if diff.starts_with("soft") && quotient_is_zero::<P>(m, log) {
                    w.bump("skipped.constraints_vanish_identically");
                    return;
                }
                w.judged();
                let d = if m.stmt < w.sc.stmts.len() && diff.is_empty() {
                    "public inputs or circuit".to_string()
                } else {
                    diff
                };
                w.fail("accepted for another statement", d, instead);
            } else {
                w.judged();
            }
        }
        "C11" if m.honest && same && !altered => {
            let mut w = w.borrow_mut();
            if pc {
                w.judged();
                let inj = log.injected.clone().unwrap();
                match v {
                    Verdict::Reject(_) => {}
                    Verdict::Accept => w.fail("accepted despite a backend failure", inj, instead),
                    Verdict::Panic(e) => {
                        let e = format!("{}: {}", inj, e);
                        w.fail("verifier panics on a backend failure", e, instead)
                    }
                    _ => {}
                }
            } else if !faulted {
                w.judged();
                if !accept {
                    let before = w.rep.counters.keys().any(|k| {
                        k.starts_with("fault.Error") || k.starts_with("fault.False")
                    });
                    if before {
                        w.fail("objects unusable after a backend failure", shown(), instead);
                    } else {
                        w.bump("skipped.cannot_verify");
                    }
                }
            }
        }
        _ => {}
    }
}

fn quotient_is_zero<P: Backend>(m: &Msg, log: &Log) -> bool {
    let ch = log.challenges();
    let mut p = match decode::<P>(&m.bytes) {
        Ok(p) => p,
        Err(_) => return false,
    };
    if ch.len() < 5 {
        return false;
    }
    let _ = &mut p;
    // whatever the domain, all chunks zero at xi up to blinding means zero
    tamper::scalars::<P>(&mut p, 8).iter().all(|v| v.is_zero())
}

fn sweep<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    msg: u32,
    kind: u8,
    salt: u64,
    max: usize,
) {
    let m = match w.borrow().msgs.get(&msg) {
        Some(m) => m.clone(),
        None => return,
    };
    let mut proof = match decode::<P>(&m.bytes) {
        Ok(p) => p,
        Err(_) => return,
    };
    let shape = tamper::shape::<P>(&mut proof);
    let mut p = crate::prng::Prng::derive(salt, "sweep");
    let msgs: Vec<u32> = w.borrow().msgs.keys().cloned().collect();
    let len = m.bytes.len() as u64;
    let mut list: Vec<Tamper> = match kind {
        0 => tamper::systematic(&shape, &mut p),
        1 => tamper::systematic_structure(&shape, &mut p),
        2 => (0..max).map(|_| tamper::random(&mut p, &msgs)).collect(),
        3 => (0..max)
            .map(|i| match i % 4 {
                0 => Tamper::Cut { len: p.below(len as usize) as u64 },
                1 => Tamper::CutTail { n: 1 + (i / 4) as u64 },
                2 => Tamper::Excise {
                    at: p.below(len as usize) as u64,
                    n: *p.pick(&[1u64, 8, 32, 40, 48, 64]),
                },
                _ => Tamper::Insert {
                    at: p.below(len as usize) as u64,
                    n: *p.pick(&[1u64, 8, 32, 48]),
                    val: *p.pick(&[0u8, 1, 255]),
                },
            })
            .collect(),
        4 => (0..14u8)
            .flat_map(|nth| {
                let vals = [
                    0u64,
                    1,
                    p.below(12) as u64,
                    len,
                    u64::MAX,
                    1 << 63,
                    1 << (32 + p.below(30)),
                    1 << 20,
                ];
                vals.map(|val| Tamper::Len { nth, val })
            })
            .collect(),
        _ => (0..max)
            .map(|_| {
                // two claims moved together
                let d = p.nonzero();
                let f1 = p.below(10) as u8;
                let f2 = p.below(10) as u8;
                let (i, j) = (p.below(64), p.below(64));
                let s = |f, i, v| Tamper::Set { field: f, idx: i, op: tamper::Op::Add(Fv(v)) };
                let e = if p.chance(1, 2) { -d } else { p.nonzero() };
                Tamper::Both(Box::new(s(f1, i, d)), Box::new(s(f2, j, e)))
            })
            .collect(),
    };
    p.shuffle(&mut list);
    list.truncate(max);
    for t in list {
        let bytes = tampered(w, &m, &t);
        if bytes == m.bytes {
            continue;
        }
        let (v, log, re) =
            match check(w, node, stmt, &bytes, &Plan::default(), vec![]) {
                Some(x) => x,
                None => return,
            };
        let instead = Step::Deliver {
            node,
            stmt,
            msg,
            tamper: t,
            plan: Plan::default(),
        };
        judge(w, stmt, &m, &bytes, re, &v, &log, Some(instead));
        if w.borrow().rep.found.is_some() {
            return;
        }
    }
}

// ------------------------------------------------------------------ threads

fn threads<P: Backend>(w: &W<P>, seed: u64, den: usize, jobs: &[Job]) {
    let n = jobs.len();
    if n == 0 {
        return;
    }
    let sched = Sched::new(seed, n, den.max(1));
    let sc = w.borrow().sc.clone();
    enum R {
        Proofs(Vec<Result<Vec<u8>, String>>, u64),
        Verdicts(Vec<String>, u64),
    }
    let mut payload: Vec<(Job, Vec<u8>)> = vec![];
    for j in jobs {
        let b = match j {
            Job::Verify { msg, tamper, .. } => {
                let m = w.borrow().msgs.get(msg).cloned();
                match m {
                    Some(m) => tampered(w, &m, tamper),
                    None => vec![],
                }
            }
            _ => vec![],
        };
        payload.push((j.clone(), b));
    }
    let sc_json = serde_json::to_vec(&*sc).unwrap();
    let results: Vec<R> = {
        let mut hs = vec![];
        for (i, (job, bytes)) in payload.iter().cloned().enumerate() {
            let sched = sched.clone();
            let sc_json = sc_json.clone();
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let sc: Scenario = serde_json::from_slice(&sc_json).unwrap();
                sched.attach(i);
                let r = run_job::<P>(&sc, &job, &bytes);
                sched.detach(i);
                r
            }));
        }
        hs.into_iter()
            .map(|h| {
                let (a, b, c) = h.unwrap().join().unwrap_or((false, vec![], 0));
                if a {
                    R::Proofs(
                        b.into_iter()
                            .map(|v| {
                                if v.first() == Some(&1) {
                                    Ok(v[1..].to_vec())
                                } else {
                                    Err(String::from_utf8_lossy(&v).to_string())
                                }
                            })
                            .collect(),
                        c,
                    )
                } else {
                    R::Verdicts(
                        b.into_iter()
                            .map(|v| String::from_utf8_lossy(&v).to_string())
                            .collect(),
                        c,
                    )
                }
            })
            .collect()
    };
    {
        let mut w = w.borrow_mut();
        let tr = sched.trace();
        w.add("sched.thread_switches", tr.len() as u64);
        w.bump("fault.threads");
        let h = fnv(0, &tr);
        w.event(&format!("threads {:x}", h), &tr);
    }
    let prop = w.borrow().prop().to_string();
    for ((job, bytes), r) in payload.iter().zip(results) {
        match (job, r) {
            (Job::Prove { stmt, rng, .. }, R::Proofs(ps, c)) if prop == "C08" => {
                w.borrow_mut().add("seam.crossings", c);
                let want = pristine(w, &Req::Prove { stmt: *stmt, rng: rng.clone() });
                if let Ok(want) = want {
                    if want.first() == Some(&1) && w.borrow().satisfied(*stmt) {
                        for p in ps {
                            let mut w = w.borrow_mut();
                            w.judged();
                            match p {
                                Ok(b) if b[..] == want[1..] => {}
                                Ok(_) => w.fail("proof differs from a fresh process's", "concurrent sessions".into(), None),
                                Err(e) => w.fail("proving fails where a fresh process succeeds", e, None),
                            }
                        }
                    }
                }
            }
            (Job::Verify { stmt, .. }, R::Verdicts(vs, c)) if prop == "C07" => {
                w.borrow_mut().add("seam.crossings", c);
                if bytes.is_empty() {
                    continue;
                }
                let want = pristine(w, &Req::Verify { stmt: *stmt, bytes: bytes.clone() });
                if let Ok(want) = want {
                    let want = String::from_utf8_lossy(&want).to_string();
                    for v in vs {
                        let mut w = w.borrow_mut();
                        w.judged();
                        if (v == "accept") != (want == "accept") {
                            w.fail(
                                "verdict depends on history",
                                format!("alone: {}, next to other sessions: {}", want, v),
                                None,
                            );
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn run_job<P: Backend>(
    sc: &Scenario,
    job: &Job,
    bytes: &[u8],
) -> (bool, Vec<Vec<u8>>, u64) {
    match job {
        Job::Prove { stmt, rng, times } => {
            let mut out = vec![];
            let mut ops = 0;
            let c = Rc::new(sc.circuits[sc.stmts[*stmt].circuit].clone());
            let a = assign_of(sc, *stmt);
            let (p, _) = session(&Plan::default(), vec![], || Prover::<P>::new(&c));
            let mut p = match p {
                Outcome::Done(Ok(p)) => p,
                x => return (true, vec![format!("0{:?}", x.map(|r| r.err())).into_bytes()], 0),
            };
            for _ in 0..*times {
                let (o, log) = session(&Plan::default(), vec![], || {
                    p.prove(1, &a, false, rng, None).map(|p| encode(&p))
                });
                ops += log.ops;
                out.push(match o {
                    Outcome::Done(Ok(b)) => [vec![1], b].concat(),
                    x => format!("0{:?}", x.map(|r| r.err())).into_bytes(),
                });
            }
            (true, out, ops)
        }
        Job::Verify { stmt, times, .. } => {
            let mut out = vec![];
            let mut ops = 0;
            let c = Rc::new(sc.circuits[sc.stmts[*stmt].circuit].clone());
            let a = assign_of(sc, *stmt);
            let (v, _) = session(&Plan::default(), vec![], || Verifier::<P>::new(&c, &a.i));
            let mut v = match v {
                Outcome::Done(Ok(v)) => v,
                _ => return (false, vec![], 0),
            };
            for _ in 0..*times {
                let (o, log) = session(&Plan::default(), vec![], || match decode::<P>(bytes) {
                    Err(_) => "undecodable",
                    Ok(p) => match v.verify(p) {
                        Ok(()) => "accept",
                        Err(_) => "reject",
                    },
                });
                ops += log.ops;
                out.push(match o {
                    Outcome::Done(s) => s.as_bytes().to_vec(),
                    Outcome::Panic(_) => b"panic".to_vec(),
                    Outcome::Crash => b"crash".to_vec(),
                });
            }
            (false, out, ops)
        }
    }
}

// --------------------------------------------------------------------- mock

fn ints(s: &str) -> Vec<usize> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() {
            cur.push(c)
        } else if !cur.is_empty() {
            out.extend(cur.parse::<usize>());
            cur.clear();
        }
    }
    out
}

fn mock<P: Backend>(w: &W<P>, node: u8, stmt: usize, fresh: bool) -> Option<bool> {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let a = w.borrow().assigns[stmt].clone();
    let c = w.borrow().circuits[circuit].clone();
    let mut p = take_prover(w, node, circuit).ok()?;
    let (o, log) = session(&Plan::default(), vec![], || p.mock(stmt as u64, &a, fresh));
    put_prover(w, node, circuit, p);
    let x = c.fixed_values();
    let mut bad = vec![];
    for (gi, g) in c.gates.iter().enumerate() {
        for row in 0..c.n() {
            if !c.gate_value(g, row, &a, &x).is_zero() {
                bad.push((gi, row));
            }
        }
    }
    let mut w = w.borrow_mut();
    w.note_log("mock", &log);
    let text = match &o {
        Outcome::Done(Ok(())) => None,
        Outcome::Done(Err(e)) => Some(e.clone()),
        Outcome::Panic(e) => Some(e.clone()),
        Outcome::Crash => return None,
    };
    w.event(
        &format!("mock {} of {} violations", if text.is_none() { "ok" } else { "flagged" }, bad.len().min(3)),
        text.clone().unwrap_or_default().as_bytes(),
    );
    w.bump(if bad.is_empty() { "mock.good_assignment" } else { "mock.bad_assignment" });
    if w.prop() != "C14" && w.prop() != "C17" {
        return Some(text.is_none());
    }
    w.judged();
    match &text {
        None if !bad.is_empty() => {
            let d = format!("gate {} row {} and {} more", bad[0].0, bad[0].1, bad.len() - 1);
            w.fail("mock prover accepts a violated gate", d, None)
        }
        Some(t) if bad.is_empty() => w.fail("mock prover refuses a good assignment", t.clone(), None),
        Some(t) => {
            let v = ints(t);
            if v.len() < 2 || !bad.contains(&(v[0], v[1])) {
                w.fail("mock prover names a gate and row that are not violated", t.clone(), None)
            }
        }
        None => {}
    }
    Some(text.is_none())
}

fn mock_agree<P: Backend>(w: &W<P>, node: u8, stmt: usize, rng: &RngSpec) {
    let m = match mock(w, node, stmt, false) {
        Some(m) => m,
        None => return,
    };
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    if c.has_perm() || !c.lookups.is_empty() || !c.removed.is_empty() {
        return;
    }
    let a = w.borrow().assigns[stmt].clone();
    let mut p = match take_prover(w, node, circuit) {
        Ok(p) => p,
        Err(_) => return,
    };
    let (o, _) = session(&Plan::default(), vec![], || {
        p.prove(stmt as u64, &a, false, rng, None).map(|p| encode(&p))
    });
    put_prover(w, node, circuit, p);
    let real = match o {
        Outcome::Done(Ok(b)) => match check(w, node, stmt, &b, &Plan::default(), vec![]) {
            Some((v, _, _)) => v == Verdict::Accept,
            None => return,
        },
        _ => false,
    };
    let mut w = w.borrow_mut();
    w.event(&format!("agree mock={} real={}", m, real), &[]);
    if w.prop() == "C14" || w.prop() == "C17" {
        w.judged();
        if m != real {
            w.fail(
                "mock prover and real prover disagree",
                format!("mock accepts: {}, real accepted: {}", m, real),
                None,
            );
        }
    }
}

// ------------------------------------------------------------------ storage

fn storage<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    msgs: &[u32],
    wr: &Io,
    rd: &Io,
    uncompressed: bool,
) {
    let ms: Vec<Msg> = msgs.iter().filter_map(|m| w.borrow().msgs.get(m).cloned()).collect();
    if ms.is_empty() || ms.iter().any(|m| !m.honest) {
        return;
    }
    let ps: Vec<Proof<P>> = match ms.iter().map(|m| decode::<P>(&m.bytes)).collect::<Result<Vec<_>, _>>() {
        Ok(p) => p,
        Err(e) => {
            w.borrow_mut().fail("encoded proof does not decode", e, None);
            return;
        }
    };
    let mut canon = vec![];
    for p in &ps {
        let at = canon.len();
        let (r, size) = if uncompressed {
            (p.serialize_uncompressed(&mut canon), p.uncompressed_size())
        } else {
            (p.serialize(&mut canon), p.serialized_size())
        };
        let mut w = w.borrow_mut();
        if r.is_err() {
            w.fail("encoding to memory fails", format!("{:?}", r.err()), None);
            return;
        }
        w.judged();
        if size != canon.len() - at {
            w.fail(
                "announced size is wrong",
                format!("{} announced, {} written", size, canon.len() - at),
                None,
            );
            return;
        }
    }
    // write all proofs to one stream
    let mut out = SimWrite { s: Stream::new(wr), out: vec![] };
    let (o, _) = session(&Plan::default(), vec![], || -> Result<(), String> {
        for p in &ps {
            let r = if uncompressed {
                p.serialize_uncompressed(&mut out)
            } else {
                p.serialize(&mut out)
            };
            r.map_err(dbg)?;
        }
        Ok(())
    });
    {
        let mut w = w.borrow_mut();
        w.add("io.write_calls", out.s.calls);
        w.add("fault.io.interrupted", out.s.interrupted);
        if out.s.failed {
            w.bump(&format!("fault.io.write_failed_{}", wr.fail_kind));
        }
        if wr.max_chunk > 0 {
            w.bump("fault.io.short_writes");
        }
        w.event(&format!("store failed={} ok={}", out.s.failed, matches!(o, Outcome::Done(Ok(())))), &out.out);
        w.judged();
        match &o {
            Outcome::Done(Ok(())) => {
                if out.out != canon {
                    w.fail(
                        "write reported success but stored something else",
                        format!("{} of {} bytes", out.out.len(), canon.len()),
                        None,
                    );
                    return;
                }
            }
            Outcome::Done(Err(e)) if !out.s.failed => {
                w.fail("write fails on a stream that only takes few bytes at a time", e.clone(), None);
                return;
            }
            Outcome::Panic(e) => {
                w.fail("writing panics", e.clone(), None);
                return;
            }
            _ => {}
        }
    }
    // read them back
    let mut rd_s = SimRead { s: Stream::new(rd), data: &canon, at: 0 };
    let (o, _) = session(&Plan::default(), vec![], || -> Result<Vec<Proof<P>>, String> {
        let mut v = vec![];
        for _ in &ps {
            let p = if uncompressed {
                Proof::<P>::deserialize_uncompressed(&mut rd_s)
            } else {
                Proof::<P>::deserialize(&mut rd_s)
            };
            v.push(p.map_err(dbg)?);
        }
        Ok(v)
    });
    let got = {
        let mut w = w.borrow_mut();
        w.add("io.read_calls", rd_s.s.calls);
        w.add("fault.io.interrupted", rd_s.s.interrupted);
        if rd_s.s.failed {
            w.bump(&format!("fault.io.read_failed_{}", rd.fail_kind));
        }
        if rd.max_chunk > 0 {
            w.bump("fault.io.short_reads");
        }
        w.event(&format!("load failed={} ok={}", rd_s.s.failed, matches!(o, Outcome::Done(Ok(_)))), &[]);
        w.judged();
        match o {
            Outcome::Done(Ok(v)) => v,
            Outcome::Done(Err(e)) => {
                if !rd_s.s.failed {
                    w.fail("read fails on a stream that only gives few bytes at a time", e, None);
                }
                return;
            }
            Outcome::Panic(e) => {
                w.fail("reading panics", e, None);
                return;
            }
            Outcome::Crash => return,
        }
    };
    for (i, (p, m)) in got.into_iter().zip(&ms).enumerate() {
        if encode(&p) != m.bytes {
            w.borrow_mut().fail("proof read back differs", format!("proof {}", i), None);
            return;
        }
        if let Some(d) = size_report(&p) {
            w.borrow_mut().fail("size report miscounts the proof read back", d, None);
            return;
        }
        let same = w.borrow().same_statement(m.stmt, stmt);
        if same && i == 0 {
            if let Ok(mut v) = take_verifier(w, node, stmt) {
                let (o, _) = session(&Plan::default(), vec![], || v.verify(p));
                // the same proof handed over without a detour
                let direct = match decode::<P>(&m.bytes) {
                    Ok(p) => session(&Plan::default(), vec![], || v.verify(p)).0,
                    Err(_) => return,
                };
                put_verifier(w, node, stmt, v);
                let mut w = w.borrow_mut();
                w.judged();
                let acc = |o: &Outcome<Result<(), String>>| matches!(o, Outcome::Done(Ok(())));
                if acc(&o) != acc(&direct) {
                    w.fail("verdict changes by storing the proof", String::new(), None);
                }
            }
        }
    }
}

/// The counts a report names, by label: the words before a number, lower case.
fn counts(report: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for line in report.lines() {
        let word = |t: &str| -> String {
            t.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
        };
        let ws: Vec<String> = line.split_whitespace().map(word).filter(|t| !t.is_empty()).collect();
        if let Some((last, label)) = ws.split_last() {
            if let Ok(n) = last.parse() {
                m.insert(label.join(""), n);
                continue;
            }
        }
        if let Some((first, label)) = ws.split_first() {
            if let Ok(n) = first.parse() {
                m.insert(label.join(""), n);
            }
        }
    }
    m
}

/// Whether the two size reports count the parts the proof really has.
/// A report with other labels is not judged.
fn size_report<P: Backend>(p: &Proof<P>) -> Option<String> {
    let parts = [
        ("witnesscommitments", p.witness_commitments.len()),
        ("witnessevals", p.witness_evals.len()),
        ("fixedoracleevals", p.fixed_oracle_evals.len()),
        ("tableoracleevals", p.table_oracle_evals.len()),
        ("permutationoracleevals", p.permutation_oracle_evals.len()),
        ("qblindeval", 1),
        ("lookupcommitments", p.lookup_commitments.len()),
        ("lookupevals", p.lookup_evals.len()),
        ("lookupzcommitments", p.lookup_z_commitments.len()),
        ("lookupzevals", p.lookup_z_evals.len()),
        ("quotientchunkcommitments", p.quotient_chunk_commitments.len()),
        ("quotientchunksevals", p.quotient_chunks_evals.len()),
        ("zcommitments", p.z_commitments.len()),
        ("zevals", p.z_evals.len()),
        ("qevals", p.multiopen_proof.q_evals.len()),
        ("fcommit", 1),
        ("openingproof", 1),
    ];
    let is_comm = |l: &str| l.ends_with("commitments") || l == "fcommit";
    let comms: usize = parts.iter().filter(|(l, _)| is_comm(l)).map(|x| x.1).sum();
    let elems: usize =
        parts.iter().filter(|(l, _)| l.ends_with("evals") || *l == "qblindeval").map(|x| x.1).sum();
    use zero_over_k::Proof as _;
    let (o, _) = session(&Plan::default(), vec![], || (p.info(), p.cumulative_info()));
    let (info, sum) = match o {
        Outcome::Done(x) => x,
        Outcome::Panic(e) => return Some(format!("panic: {}", e)),
        Outcome::Crash => return None,
    };
    let (got, total) = (counts(&info), counts(&sum));
    let sums = [("commitments", comms), ("fieldelements", elems), ("pcproof", 1)];
    for (want, got) in [(&parts[..], &got), (&sums[..], &total)] {
        for (l, n) in want {
            match got.get(*l) {
                Some(m) if m != n => return Some(format!("{}: {} reported, {} held", l, m, n)),
                _ => {}
            }
        }
    }
    None
}

// -------------------------------------------------------------------- setup

fn setup_step<P: Backend>(w: &W<P>, degree: usize, seed: u64, plan: &Plan) {
    let (o, log) = session(plan, vec![], || setup::<P>(degree, seed).map(|_| ()));
    let mut w = w.borrow_mut();
    w.note_log("setup", &log);
    w.event(
        &format!("setup {} inj={:?} ok={}", degree, log.injected, matches!(o, Outcome::Done(Ok(())))),
        &[],
    );
    if w.prop() != "C11" {
        return;
    }
    w.judged();
    let pc = log.injected.as_ref().map_or(false, |s| s.starts_with("Error"));
    match o {
        Outcome::Panic(e) => w.fail("setup panics", format!("{:?}: {}", log.injected, e), None),
        Outcome::Done(Ok(())) if pc => {
            w.fail("setup succeeds despite a backend error", log.injected.unwrap(), None)
        }
        Outcome::Done(Ok(())) if degree == 0 => {
            w.fail("setup of degree zero succeeds", String::new(), None)
        }
        Outcome::Done(Err(e)) if !pc && degree > 0 => {
            w.fail("setup fails without a backend error", e, None)
        }
        _ => {}
    }
}

fn small_srs<P: Backend>(w: &W<P>, stmt: usize, degree: usize, rng: &RngSpec) {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let a = w.borrow().assigns[stmt].clone();
    if !w.borrow().satisfied(stmt) {
        return;
    }
    let mut p = match take_prover(w, 0, circuit) {
        Ok(p) => p,
        Err(_) => return,
    };
    let (o, log) = session(&Plan::default(), vec![], || p.prove(stmt as u64, &a, true, rng, None).map(|_| ()));
    put_prover(w, 0, circuit, p);
    if !matches!(o, Outcome::Done(Ok(()))) {
        return;
    }
    let need = log.commits.iter().map(|c| c.coeffs.len()).max().unwrap_or(0);
    let k = match keys::<P>(degree, c.srs_seed) {
        Ok(k) => k,
        Err(_) => return,
    };
    let (o, log) = session(&Plan::default(), vec![], || {
        let mut p = Prover::<P>::with_keys(&c, &k)?;
        p.prove(stmt as u64, &a, true, rng, None).map(|_| ())
    });
    let mut w = w.borrow_mut();
    w.note_log("prove_small_setup", &log);
    w.event(&format!("small setup ok={}", matches!(o, Outcome::Done(Ok(())))), &[]);
    if w.prop() != "C11" || need <= degree + 1 {
        return;
    }
    w.bump("fault.setup_too_small");
    w.judged();
    match o {
        Outcome::Panic(e) => w.fail("setup too small panics", e, None),
        Outcome::Done(Ok(())) => w.fail(
            "setup too small yields a proof",
            format!("{} coefficients, setup of degree {}", need, degree),
            None,
        ),
        _ => {}
    }
}

// ------------------------------------------------------------ unfit columns

#[allow(clippy::too_many_arguments)]
fn unfit<P: Backend>(
    w: &W<P>,
    stmt: usize,
    msg: u32,
    prover: bool,
    kind: u8,
    idx: usize,
    how: Fit,
    rng: &RngSpec,
) {
    let m = match w.borrow().msgs.get(&msg) {
        Some(m) if m.honest && m.stmt == stmt => m.clone(),
        _ => return,
    };
    let c = w.borrow().circuits[w.borrow().sc.stmts[stmt].circuit].clone();
    let a = w.borrow().assigns[stmt].clone();
    let (o, log) = session(&Plan::default(), vec![], || {
        if prover {
            let mut p = Prover::<P>::new(&c).ok()?;
            p.prove_unfit(&a, kind % 2 == 1, idx, how, rng).map(|r| r.map(|_| ()))
        } else {
            let mut v = Verifier::<P>::new(&c, &a.i).ok()?;
            if !v.unfit(&a.i, kind, idx, how) {
                return None;
            }
            let p = decode::<P>(&m.bytes).ok()?;
            Some(v.verify(p))
        }
    });
    let ty = if prover { kind % 2 } else { kind };
    let used = c.reads(ty, idx);
    let mut w = w.borrow_mut();
    let what = format!("{} {:?} kind {}", if prover { "prover" } else { "verifier" }, how, ty);
    w.note_log("unfit", &log);
    let ok = match o {
        Outcome::Done(None) => return,
        Outcome::Done(Some(r)) => r.is_ok(),
        Outcome::Panic(e) => {
            w.bump(&format!("fault.columns {}", what));
            w.event(&format!("unfit {} panic", what), &[]);
            // a prover whose wiring does not work out stops at its own assertion
            if w.prop() == "C10" && (!prover || how == Fit::Renamed) {
                w.judged();
                w.fail("panic on columns that do not fit", format!("{}: {}", what, e), None);
            }
            return;
        }
        Outcome::Crash => return,
    };
    w.bump(&format!("fault.columns {}", what));
    w.event(&format!("unfit {} ok={}", what, ok), &[]);
    if w.prop() != "C10" {
        return;
    }
    w.judged();
    if ok && used && matches!(how, Fit::Missing | Fit::Renamed) {
        w.fail(
            if prover { "proof made without a column" } else { "accepted without a column" },
            format!("{} index {}", what, idx),
            None,
        );
    }
}

// ------------------------------------------------------------ public inputs

fn pick_instance<P: Backend>(w: &W<P>, node: u8, stmt: usize, msg: u32, col: usize, salt: u64) {
    let m = match w.borrow().msgs.get(&msg) {
        Some(m) if m.honest && m.stmt == stmt => m.clone(),
        _ => return,
    };
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let a = w.borrow().assigns[stmt].clone();
    if a.i.is_empty() {
        return;
    }
    let col = col % a.i.len();
    // the challenges of the honest run are public
    let (v, log, _) = match check(w, node, stmt, &m.bytes, &Plan::default(), vec![]) {
        Some(x) => x,
        None => return,
    };
    let ch = log.challenges();
    if v != Verdict::Accept || ch.len() < 5 {
        return;
    }
    let mut rots: Vec<i32> = vec![0];
    let mut see = |e: Vec<(Ty, usize, i32)>| {
        for (t, i, r) in e {
            if t == Ty::I && i == col && !rots.contains(&r) {
                rots.push(r)
            }
        }
    };
    for g in &c.gates {
        if let Gate::Out { out, f, .. } = g {
            let mut q = vec![*out];
            f.queries(&mut q);
            see(q);
        }
    }
    for l in &c.lookups {
        for i in &l.inputs {
            let mut q = vec![];
            i.ex().queries(&mut q);
            see(q);
        }
    }
    let n = c.n();
    rots.sort_by_key(|r| r.rem_euclid(n as i32));
    rots.dedup_by_key(|r| r.rem_euclid(n as i32));
    if rots.len() >= n {
        return;
    }
    let d = c.domain();
    use ark_poly::EvaluationDomain;
    use ark_ff::Field;
    let mut pick = crate::prng::Prng::derive(salt, "pick");
    let s = pick.nonzero();
    // the difference may also vanish on some rows, or have only high
    // coefficients, in case the transcript covers a part of the column
    let room = n - 1 - rots.len().min(n - 1);
    let (mut power, mut zeros) = (0, vec![]);
    if pick.chance(1, 2) {
        let k = if pick.chance(1, 2) { room } else { pick.below(room + 1) };
        match pick.below(3) {
            0 => power = k,
            1 => zeros = (0..k).collect(),
            _ => zeros = (n - k..n).collect(),
        }
    }
    let xi = ch[4];
    let pts: Vec<F> = rots
        .iter()
        .map(|r| xi * d.element(r.rem_euclid(n as i32) as usize))
        .collect();
    let vals: Vec<F> = d
        .elements()
        .zip(&a.i[col])
        .map(|(x, v)| {
            let m = zeros.iter().fold(x.pow([power as u64]), |acc, r| acc * (x - d.element(*r)));
            *v + pts.iter().fold(s * m, |acc, p| acc * (x - p))
        })
        .collect();
    let mut inst = a.i.clone();
    inst[col] = vals;
    let mut ver = match take_verifier(w, node, stmt) {
        Ok(v) => v,
        Err(_) => return,
    };
    ver.set_instance(&inst);
    let (o, log) = session(&Plan::default(), vec![], || match decode::<P>(&m.bytes) {
        Ok(p) => ver.verify(p),
        Err(e) => Err(e),
    });
    ver.set_instance(&a.i);
    put_verifier(w, node, stmt, ver);
    let mut w = w.borrow_mut();
    w.note_log("verify", &log);
    w.bump("fault.inputs_chosen_after_proof");
    w.event(&format!("picked inputs accepted={}", matches!(o, Outcome::Done(Ok(())))), &[]);
    if w.prop() == "C10" {
        w.judged();
        if matches!(o, Outcome::Done(Ok(()))) {
            w.fail(
                "accepted for public inputs chosen after the proof",
                format!("column {}", col),
                None,
            );
        }
    }
}

// ---------------------------------------------------------------------- run

/// Runs a scenario in this process and reports.
pub fn run(sc: &Scenario, keep_events: bool, progress: &mut dyn FnMut(usize)) -> Report {
    if sc.kzg {
        run_with::<Kzg>(sc, keep_events, progress)
    } else {
        run_with::<FieldKzg>(sc, keep_events, progress)
    }
}

fn run_with<P: Backend>(
    sc: &Scenario,
    keep_events: bool,
    progress: &mut dyn FnMut(usize),
) -> Report {
    let zyg = if sc.prop == "C07" || sc.prop == "C08" {
        let s = sc.clone();
        Zygote::start(move |req| answer::<P>(&s, &req))
    } else {
        None
    };
    let circuits: Vec<Rc<Circuit>> =
        sc.circuits.iter().map(|c| Rc::new(c.clone())).collect();
    let assigns: Vec<Rc<Assign>> =
        (0..sc.stmts.len()).map(|i| Rc::new(assign_of(sc, i))).collect();
    let viols = sc
        .stmts
        .iter()
        .zip(&assigns)
        .map(|(s, a)| circuits[s.circuit].violations(a))
        .collect();
    let w: W<P> = Rc::new(RefCell::new(World {
        sc: Rc::new(sc.clone()),
        circuits,
        assigns,
        viols,
        provers: BTreeMap::new(),
        verifiers: BTreeMap::new(),
        msgs: BTreeMap::new(),
        zyg,
        pristine: BTreeMap::new(),
        rep: Report::default(),
        cur: 0,
        keep_events,
    }));
    if sc.kzg {
        w.borrow_mut().bump("run.real_kzg");
    }
    for c in &sc.circuits {
        let k = format!(
            "circuit rows={} usable={} witness={} permuted={} public={} fixed={} gates={} degree={} lookups={} copies={} removed={}",
            c.n(),
            c.u,
            c.witness.len(),
            c.permuted().len(),
            c.instance.len(),
            c.fixed.len(),
            c.gates.len(),
            c.max_degree(),
            c.lookups.len(),
            c.copies.len(),
            c.removed.len()
        );
        w.borrow_mut().event(&k, &[]);
    }
    for (i, t) in sc.steps.iter().enumerate() {
        progress(i);
        {
            let mut w = w.borrow_mut();
            w.cur = i;
            w.rep.sim_ms = w.rep.sim_ms.max(t.t);
            w.add("steps", 1);
        }
        exec(&w, &t.step, vec![]);
        if w.borrow().rep.found.is_some() {
            break;
        }
    }
    let rep = std::mem::take(&mut w.borrow_mut().rep);
    // nodes are torn down with the process
    std::mem::forget(w);
    rep
}

/// Keys that a scenario needs, made before the run begins.
pub fn warm(sc: &Scenario) {
    if sc.steps.iter().any(|t| matches!(t.step, Step::Fold { .. })) {
        let _ = keys::<Kzg>(crate::fold::DEG, 0);
    }
    if sc.kzg {
        for t in &sc.steps {
            if let Step::Opens { degree, .. } = t.step {
                let _ = keys::<Kzg>(degree, 0);
            }
        }
        for c in &sc.circuits {
            let _ = keys::<Kzg>(c.srs_degree(), c.srs_seed);
        }
    }
}
