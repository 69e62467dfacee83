//! The seams between the library and its environment, all owned by the
//! simulator: commitment backend, transcript, randomness. Every crossing of a
//! seam is counted; at a chosen crossing the simulator can crash the node,
//! make the backend fail, or hand control to another session.
use crate::{F, Poly};
use ark_ff::ToBytes;
use ark_poly_commit::{
    Evaluations, LabeledCommitment, LabeledPolynomial, PolynomialCommitment,
    QuerySet,
};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{Error as RandError, RngCore};
use blake2::Blake2s;
use rand_chacha::ChaChaRng;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PcFault {
    /// The call returns the n-th kind of backend error.
    Error(u8),
    /// An opening check answers `Ok(false)`.
    False,
    /// A prover that sends one commitment too many or too few.
    Count(bool),
}

/// What the simulator injects into one session (one call of the library).
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    /// Crash the node at this seam crossing.
    pub crash_at: Option<u64>,
    /// Backend fault at this backend call.
    pub pc_fault: Option<(u64, PcFault)>,
}

#[derive(Clone, Debug)]
pub struct CommitRec {
    pub call: u64,
    pub label: String,
    pub coeffs: Vec<F>,
    pub hiding: Option<usize>,
    pub rng_given: bool,
    pub comm: Vec<u8>,
    pub rand: Vec<u8>,
    /// Draws of the caller's randomness when the call began.
    pub draws_before: u64,
    /// ... and when it ended.
    pub draws_after: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FsEv {
    Init(Vec<u8>),
    Absorb(Vec<u8>),
    Draw(Vec<u8>),
}

#[derive(Default)]
pub struct Log {
    pub ops: u64,
    pub pc_calls: u64,
    pub rng_draws: u64,
    pub commits: Vec<CommitRec>,
    pub fs: Vec<FsEv>,
    pub opens: u64,
    pub checks: u64,
    /// Point and values of every opening check.
    pub checked: Vec<(F, Vec<F>)>,
    /// Point of every opening.
    pub opened: Vec<F>,
    /// The name of the seam crossing at which something was injected.
    pub injected: Option<String>,
    pub switches: u64,
}

impl Log {
    /// Concatenated draws between absorbs, empty ones dropped.
    pub fn blocks(&self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut cur: Vec<u8> = vec![];
        for e in &self.fs {
            match e {
                FsEv::Draw(b) => cur.extend_from_slice(b),
                _ => {
                    if !cur.is_empty() {
                        out.push(std::mem::take(&mut cur));
                    }
                }
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        out
    }
    pub fn challenges(&self) -> Vec<F> {
        self.blocks().iter().flat_map(|b| decode_block(b)).collect()
    }
}

struct Replay<'a>(&'a [u8], usize);
impl<'a> RngCore for Replay<'a> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = *self.0.get(self.1).unwrap_or(&0);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RandError> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// The field elements a run of draws stands for.
pub fn decode_block(b: &[u8]) -> Vec<F> {
    use ark_ff::UniformRand;
    let mut r = Replay(b, 0);
    let mut out = vec![];
    while r.1 < b.len() {
        let v = F::rand(&mut r);
        if r.1 > b.len() {
            break;
        }
        out.push(v);
    }
    out
}

pub type YieldFn = Box<dyn FnOnce()>;

#[derive(Default)]
struct Ctl {
    plan: Plan,
    yields: Vec<(u64, YieldFn)>,
    log: Log,
    sched: Option<(Arc<Sched>, usize)>,
    forced: std::collections::VecDeque<u64>,
}

thread_local! {
    static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
}

/// Payload of a simulated node crash.
pub struct SimCrash;

fn op(name: &'static str) {
    enum Act {
        None,
        Crash,
        Yield(YieldFn),
        Switch(Arc<Sched>, usize),
    }
    let act = CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.log.ops += 1;
        let n = c.log.ops;
        if c.plan.crash_at == Some(n) {
            c.log.injected = Some(format!("crash at {}", name));
            return Act::Crash;
        }
        if let Some(i) = c.yields.iter().position(|(k, _)| *k == n) {
            c.log.injected = Some(format!("yield at {}", name));
            return Act::Yield(c.yields.remove(i).1);
        }
        match &c.sched {
            Some((s, i)) => Act::Switch(s.clone(), *i),
            None => Act::None,
        }
    });
    match act {
        Act::None => {}
        Act::Crash => std::panic::panic_any(SimCrash),
        Act::Yield(f) => f(),
        Act::Switch(s, i) => {
            if s.switch(i) {
                CTL.with(|c| c.borrow_mut().log.switches += 1);
            }
        }
    }
}

fn pc_call<E: From<ark_poly_commit::Error>>(
    name: &'static str,
) -> Result<Option<PcFault>, E> {
    op(name);
    let fault = CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.log.pc_calls += 1;
        let n = c.log.pc_calls;
        match c.plan.pc_fault {
            Some((k, f)) if k == n => {
                c.log.injected = Some(format!("{:?} at {}", f, name));
                Some(f)
            }
            _ => None,
        }
    });
    use ark_poly_commit::Error as E0;
    match fault {
        Some(PcFault::Error(k)) => Err(match k % 5 {
            0 => E0::MissingRng,
            1 => E0::DegreeIsZero,
            2 => E0::TooManyCoefficients {
                num_coefficients: 9,
                num_powers: 8,
            },
            3 => E0::TrimmingDegreeTooLarge,
            _ => E0::IncorrectInputLength("injected".into()),
        }
        .into()),
        f => Ok(f),
    }
}

/// How a simulated call ended.
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome<T> {
    Done(T),
    Panic(String),
    Crash,
}

impl<T> Outcome<T> {
    pub fn done(self) -> Option<T> {
        match self {
            Outcome::Done(t) => Some(t),
            _ => None,
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Outcome<U> {
        match self {
            Outcome::Done(t) => Outcome::Done(f(t)),
            Outcome::Panic(s) => Outcome::Panic(s),
            Outcome::Crash => Outcome::Crash,
        }
    }
}

fn panic_text(p: Box<dyn Any + Send>) -> Result<String, SimCrash> {
    if p.is::<SimCrash>() {
        return Err(SimCrash);
    }
    Ok(if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else {
        "panic".to_string()
    })
}

/// Runs one call of the library under a plan and returns how it ended and what
/// crossed the seams. Sessions nest.
pub fn session<T>(
    plan: &Plan,
    yields: Vec<(u64, YieldFn)>,
    body: impl FnOnce() -> T,
) -> (Outcome<T>, Log) {
    let saved = CTL.with(|c| {
        let mut c = c.borrow_mut();
        let sched = c.sched.clone();
        std::mem::replace(
            &mut *c,
            Ctl {
                plan: plan.clone(),
                yields,
                log: Log::default(),
                sched,
                forced: Default::default(),
            },
        )
    });
    let saved_cb = zero_over_k::sim::set_callback(None);
    // The callback of the session itself is installed by `body` if needed.
    let r = catch_unwind(AssertUnwindSafe(body));
    zero_over_k::sim::set_callback(saved_cb);
    let used = CTL.with(|c| std::mem::replace(&mut *c.borrow_mut(), saved));
    let out = match r {
        Ok(t) => Outcome::Done(t),
        Err(p) => match panic_text(p) {
            Ok(s) => Outcome::Panic(s),
            Err(SimCrash) => Outcome::Crash,
        },
    };
    (out, used.log)
}

/// The next field elements a deviating prover draws as its "randomness".
pub fn force_fields(v: &[F]) {
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        for x in v {
            c.forced.extend(x.0 .0.iter().copied());
        }
    })
}

/// Draws logged so far in the running session.
pub fn fs_so_far() -> Vec<FsEv> {
    CTL.with(|c| c.borrow().log.fs.clone())
}

pub fn challenges_so_far() -> Vec<F> {
    let fs = fs_so_far();
    let l = Log {
        fs,
        ..Default::default()
    };
    l.challenges()
}

// ---------------------------------------------------------------- scheduler

/// Hands a baton between threads at seam crossings; a seeded generator decides
/// who runs next, so one seed is one interleaving.
pub struct Sched {
    st: Mutex<SchedSt>,
    cv: Condvar,
}
struct SchedSt {
    prng: crate::prng::Prng,
    current: usize,
    alive: Vec<bool>,
    switch_den: usize,
    trace: Vec<u8>,
}

impl Sched {
    pub fn new(seed: u64, n: usize, switch_den: usize) -> Arc<Self> {
        let mut prng = crate::prng::Prng::derive(seed, "sched");
        let current = prng.below(n);
        Arc::new(Sched {
            st: Mutex::new(SchedSt {
                prng,
                current,
                alive: vec![true; n],
                switch_den,
                trace: vec![current as u8],
            }),
            cv: Condvar::new(),
        })
    }
    pub fn attach(self: &Arc<Self>, i: usize) {
        CTL.with(|c| c.borrow_mut().sched = Some((self.clone(), i)));
        let mut st = self.st.lock().unwrap();
        while st.current != i {
            st = self.cv.wait(st).unwrap();
        }
    }
    pub fn detach(self: &Arc<Self>, i: usize) {
        CTL.with(|c| c.borrow_mut().sched = None);
        let mut st = self.st.lock().unwrap();
        st.alive[i] = false;
        let live: Vec<usize> =
            (0..st.alive.len()).filter(|&j| st.alive[j]).collect();
        if !live.is_empty() {
            let k = st.prng.below(live.len());
            st.current = live[k];
            let c = st.current as u8;
            st.trace.push(c);
        }
        self.cv.notify_all();
    }
    fn switch(&self, i: usize) -> bool {
        let mut st = self.st.lock().unwrap();
        let den = st.switch_den;
        if !st.prng.chance(1, den) {
            return false;
        }
        let live: Vec<usize> =
            (0..st.alive.len()).filter(|&j| st.alive[j]).collect();
        let k = st.prng.below(live.len());
        let next = live[k];
        if next == i {
            return false;
        }
        st.current = next;
        st.trace.push(next as u8);
        self.cv.notify_all();
        while st.current != i {
            st = self.cv.wait(st).unwrap();
        }
        true
    }
    pub fn trace(&self) -> Vec<u8> {
        self.st.lock().unwrap().trace.clone()
    }
}

// ---------------------------------------------------------------- transcript

type RealFs = SimpleHashFiatShamirRng<Blake2s, ChaChaRng>;

/// The library's own transcript, with every absorb and draw logged.
pub struct SimFs {
    inner: RealFs,
}

pub struct Raw(pub Vec<u8>);
impl ToBytes for Raw {
    fn write<W: ark_std::io::Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        w.write_all(&self.0)
    }
}

fn log_fs(e: FsEv) {
    CTL.with(|c| {
        let fs = &mut c.borrow_mut().log.fs;
        if let (Some(FsEv::Draw(old)), FsEv::Draw(new)) = (fs.last_mut(), &e)
        {
            old.extend_from_slice(new);
            return;
        }
        fs.push(e)
    })
}

impl SimFs {
    /// Rebuilds the transcript state reached after these events.
    pub fn rebuild(events: &[FsEv]) -> Option<SimFs> {
        let mut it = events.iter();
        let mut fs = match it.next() {
            Some(FsEv::Init(b)) => SimFs::initialize(&Raw(b.clone())),
            _ => return None,
        };
        for e in it {
            match e {
                FsEv::Init(_) => return None,
                FsEv::Absorb(b) => fs.absorb(&Raw(b.clone())),
                FsEv::Draw(b) => {
                    let mut x = vec![0u8; b.len()];
                    for c in x.chunks_mut(8) {
                        let v = fs.next_u64().to_le_bytes();
                        let l = c.len();
                        c.copy_from_slice(&v[..l]);
                    }
                    if &x != b {
                        return None;
                    }
                }
            }
        }
        Some(fs)
    }
}

/// Challenges can be drawn from a transcript through any of its methods.
/// Compares what they give after `events`, after the same events again, and
/// after events one absorbed byte of which was changed.
pub fn transcript_streams(events: &[FsEv], prng: &mut crate::prng::Prng) -> Option<String> {
    let told: Vec<&Vec<u8>> = events
        .iter()
        .filter_map(|e| match e {
            FsEv::Init(b) | FsEv::Absorb(b) => Some(b),
            FsEv::Draw(_) => None,
        })
        .collect();
    if told.is_empty() {
        return None;
    }
    let told = &told[..1 + prng.below(told.len())];
    let at = prng.below(told.len());
    if told[at].is_empty() {
        return None;
    }
    let (byte, bit) = (prng.below(told[at].len()), 1u8 << prng.below(8));
    let make = |change: bool| {
        let mut r: Option<RealFs> = None;
        for (i, b) in told.iter().enumerate() {
            let mut b = (*b).clone();
            if change && i == at {
                b[byte] ^= bit;
            }
            match r.as_mut() {
                None => r = Some(RealFs::initialize(&Raw(b))),
                Some(r) => r.absorb(&Raw(b)),
            }
        }
        r.unwrap()
    };
    let len = 16 + prng.below(50);
    let draw = |r: &mut RealFs, how: usize| -> Vec<u8> {
        let mut v = vec![0u8; len];
        match how {
            0 => r.fill_bytes(&mut v),
            1 => r.try_fill_bytes(&mut v).unwrap(),
            2 => v.chunks_mut(4).for_each(|c| {
                let x = r.next_u32().to_le_bytes();
                let l = c.len();
                c.copy_from_slice(&x[..l])
            }),
            _ => v.chunks_mut(8).for_each(|c| {
                let x = r.next_u64().to_le_bytes();
                let l = c.len();
                c.copy_from_slice(&x[..l])
            }),
        }
        v
    };
    const HOW: [&str; 4] = ["fill_bytes", "try_fill_bytes", "next_u32", "next_u64"];
    for how in 0..4 {
        let (mut r, mut same, mut other) = (make(false), make(false), make(true));
        let a = draw(&mut r, how);
        if a != draw(&mut same, how) {
            return Some(format!("{}: differs after the same messages", HOW[how]));
        }
        if a == draw(&mut other, how) {
            return Some(format!("{}: does not depend on message {}", HOW[how], at));
        }
        if a == draw(&mut r, how) {
            return Some(format!("{}: gives the same bytes twice", HOW[how]));
        }
    }
    None
}

impl FiatShamirRng for SimFs {
    fn initialize<'a, T: 'a + ToBytes>(x: &'a T) -> Self {
        op("transcript.init");
        let mut b = vec![];
        x.write(&mut b).unwrap();
        log_fs(FsEv::Init(b));
        SimFs {
            inner: RealFs::initialize(x),
        }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, x: &'a T) {
        op("transcript.absorb");
        let mut b = vec![];
        x.write(&mut b).unwrap();
        log_fs(FsEv::Absorb(b));
        self.inner.absorb(x)
    }
}

impl RngCore for SimFs {
    fn next_u32(&mut self) -> u32 {
        let v = self.inner.next_u32();
        log_fs(FsEv::Draw(v.to_le_bytes().to_vec()));
        v
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.inner.next_u64();
        log_fs(FsEv::Draw(v.to_le_bytes().to_vec()));
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.inner.fill_bytes(dest);
        log_fs(FsEv::Draw(dest.to_vec()));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RandError> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RngSpec {
    pub seed: u64,
    /// 0: full entropy; 1: a counter; 2: a short period; 3: a constant.
    pub kind: u8,
    /// From this draw on, a different stream (same until then).
    pub fork: Option<u64>,
}

impl RngSpec {
    pub fn good(seed: u64) -> Self {
        RngSpec {
            seed,
            kind: 0,
            fork: None,
        }
    }
}

/// The randomness a caller hands to setup and prove.
pub struct SimRng {
    spec: RngSpec,
    prng: crate::prng::Prng,
    n: u64,
}

impl SimRng {
    pub fn new(spec: &RngSpec) -> Self {
        SimRng {
            prng: crate::prng::Prng::derive(spec.seed, "rng"),
            spec: spec.clone(),
            n: 0,
        }
    }
    fn draw(&mut self) -> u64 {
        op("randomness");
        CTL.with(|c| c.borrow_mut().log.rng_draws += 1);
        self.n += 1;
        if self.spec.fork == Some(self.n) {
            self.prng = crate::prng::Prng::derive(self.spec.seed, "fork");
        }
        let x = self.prng.u64();
        if let Some(v) = CTL.with(|c| c.borrow_mut().forced.pop_front()) {
            return v;
        }
        match self.spec.kind {
            0 => x,
            1 => self.n,
            2 => 1 + (self.n % 3),
            _ => 5,
        }
    }
}

impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.draw() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.draw().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&v[..l]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RandError> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------- backend

/// Wraps a commitment backend; everything is passed through unless the plan
/// says otherwise.
pub struct SimPc<P>(PhantomData<P>);

impl<P: HomomorphicCommitment<F>> PolynomialCommitment<F, Poly> for SimPc<P> {
    type UniversalParams = P::UniversalParams;
    type CommitterKey = P::CommitterKey;
    type VerifierKey = P::VerifierKey;
    type PreparedVerifierKey = P::PreparedVerifierKey;
    type Commitment = P::Commitment;
    type PreparedCommitment = P::PreparedCommitment;
    type Randomness = P::Randomness;
    type Proof = P::Proof;
    type BatchProof = P::BatchProof;
    type Error = P::Error;

    fn setup<R: RngCore>(
        max_degree: usize,
        num_vars: Option<usize>,
        rng: &mut R,
    ) -> Result<Self::UniversalParams, Self::Error> {
        pc_call::<P::Error>("backend.setup")?;
        P::setup(max_degree, num_vars, rng)
    }

    fn trim(
        pp: &Self::UniversalParams,
        supported_degree: usize,
        supported_hiding_bound: usize,
        enforced_degree_bounds: Option<&[usize]>,
    ) -> Result<(Self::CommitterKey, Self::VerifierKey), Self::Error> {
        pc_call::<P::Error>("backend.trim")?;
        P::trim(
            pp,
            supported_degree,
            supported_hiding_bound,
            enforced_degree_bounds,
        )
    }

    fn commit<'a>(
        ck: &Self::CommitterKey,
        polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, Poly>>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<
        (
            Vec<LabeledCommitment<Self::Commitment>>,
            Vec<Self::Randomness>,
        ),
        Self::Error,
    >
    where
        Poly: 'a,
    {
        let fault = pc_call::<P::Error>("backend.commit")?;
        let (call, draws_before) = CTL.with(|c| {
            let c = c.borrow();
            (c.log.pc_calls, c.log.rng_draws)
        });
        let rng_given = rng.is_some();
        let polys: Vec<&LabeledPolynomial<F, Poly>> =
            polynomials.into_iter().collect();
        let (mut comms, rands) = P::commit(ck, polys.iter().copied(), rng)?;
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            let draws_after = c.log.rng_draws;
            for ((p, cm), r) in polys.iter().zip(&comms).zip(&rands) {
                let mut comm = vec![];
                cm.commitment().serialize(&mut comm).unwrap();
                let mut rand = vec![];
                r.serialize(&mut rand).unwrap();
                c.log.commits.push(CommitRec {
                    call,
                    label: p.label().clone(),
                    coeffs: p.polynomial().coeffs.clone(),
                    hiding: p.hiding_bound(),
                    rng_given,
                    comm,
                    rand,
                    draws_before,
                    draws_after,
                });
            }
        });
        match (fault, comms.last().cloned()) {
            (Some(PcFault::Count(true)), Some(c)) => comms.push(c),
            (Some(PcFault::Count(false)), _) => {
                comms.pop();
            }
            _ => {}
        }
        Ok((comms, rands))
    }

    fn open_individual_opening_challenges<'a>(
        ck: &Self::CommitterKey,
        labeled_polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, Poly>>,
        commitments: impl IntoIterator<
            Item = &'a LabeledCommitment<Self::Commitment>,
        >,
        point: &'a F,
        opening_challenges: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a Self::Randomness>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<Self::Proof, Self::Error>
    where
        Poly: 'a,
        Self::Randomness: 'a,
        Self::Commitment: 'a,
    {
        pc_call::<P::Error>("backend.open")?;
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            c.log.opens += 1;
            c.log.opened.push(*point);
        });
        P::open_individual_opening_challenges(
            ck,
            labeled_polynomials,
            commitments,
            point,
            opening_challenges,
            rands,
            rng,
        )
    }

    fn check_individual_opening_challenges<'a>(
        vk: &Self::VerifierKey,
        commitments: impl IntoIterator<
            Item = &'a LabeledCommitment<Self::Commitment>,
        >,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &Self::Proof,
        opening_challenges: &dyn Fn(u64) -> F,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<bool, Self::Error>
    where
        Self::Commitment: 'a,
    {
        let fault = pc_call::<P::Error>("backend.check")?;
        let values: Vec<F> = values.into_iter().collect();
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            c.log.checks += 1;
            c.log.checked.push((*point, values.clone()));
        });
        if fault == Some(PcFault::False) {
            return Ok(false);
        }
        P::check_individual_opening_challenges(
            vk,
            commitments,
            point,
            values,
            proof,
            opening_challenges,
            rng,
        )
    }

    fn batch_check_individual_opening_challenges<'a, R: RngCore>(
        vk: &Self::VerifierKey,
        commitments: impl IntoIterator<
            Item = &'a LabeledCommitment<Self::Commitment>,
        >,
        query_set: &QuerySet<F>,
        values: &Evaluations<F, F>,
        proof: &Self::BatchProof,
        opening_challenges: &dyn Fn(u64) -> F,
        rng: &mut R,
    ) -> Result<bool, Self::Error>
    where
        Self::Commitment: 'a,
    {
        let fault = pc_call::<P::Error>("backend.batch_check")?;
        if fault == Some(PcFault::False) {
            return Ok(false);
        }
        P::batch_check_individual_opening_challenges(
            vk,
            commitments,
            query_set,
            values,
            proof,
            opening_challenges,
            rng,
        )
    }
}

impl<P: HomomorphicCommitment<F>> HomomorphicCommitment<F> for SimPc<P> {
    fn msm(c: &[Self::Commitment], s: &[F]) -> Self::Commitment {
        P::msm(c, s)
    }
    fn neg_com(c: &Self::Commitment) -> Self::Commitment {
        P::neg_com(c)
    }
    fn scale_com(c: &Self::Commitment, s: F) -> Self::Commitment {
        P::scale_com(c, s)
    }
    fn add(a: &Self::Commitment, b: &Self::Commitment) -> Self::Commitment {
        P::add(a, b)
    }
    fn zero_comm() -> Self::Commitment {
        P::zero_comm()
    }
    fn is_zero(c: &Self::Commitment) -> bool {
        P::is_zero(c)
    }
    fn eq_cm(a: &Self::Commitment, b: &Self::Commitment) -> bool {
        P::eq_cm(a, b)
    }
    fn scale_rand(r: &Self::Randomness, s: F) -> Self::Randomness {
        P::scale_rand(r, s)
    }
    fn add_rands(
        a: &Self::Randomness,
        b: &Self::Randomness,
    ) -> Self::Randomness {
        P::add_rands(a, b)
    }
    fn add_assign_rand(a: &mut Self::Randomness, b: &Self::Randomness) {
        P::add_assign_rand(a, b)
    }
}

#[allow(dead_code)]
fn _unused(p: Box<dyn Any + Send>) {
    resume_unwind(p)
}
