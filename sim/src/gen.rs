//! Scenario generation: every choice of a run is made here from its seed.
use crate::circuit::*;
use crate::io::Io;
use crate::node::{interp, Fit};
use crate::prng::{inv, Prng};
use crate::seam::{PcFault, Plan, RngSpec};
use crate::tamper::{self, Tamper};
use crate::world::*;
use crate::F;
use ark_ff::{Field, Zero};
use ark_poly::Polynomial;

struct B {
    p: Prng,
    sc: Scenario,
    t: u64,
    next: u32,
}

impl B {
    fn new(prop: &str, seed: u64, kzg: bool) -> B {
        B {
            p: Prng::derive(seed, "scenario"),
            sc: Scenario {
                prop: prop.into(),
                seed,
                kzg,
                circuits: vec![],
                stmts: vec![],
                steps: vec![],
            },
            t: 0,
            next: 1,
        }
    }
    fn want(&mut self) -> Want {
        let mut w = Want { max_k: 6, ..Default::default() };
        if self.sc.kzg {
            w.max_k = 4;
        }
        if self.p.chance(1, 4) {
            w.small = true;
        } else if !self.sc.kzg && self.p.chance(1, 25) {
            // more rows than fit a byte, every once in a while
            w.max_k = 8 + self.p.below(2) as u32;
        }
        w
    }
    fn circuit(&mut self, w: &Want) -> usize {
        let s = self.p.u64() >> 16;
        let mut c = generate(s, w);
        if self.sc.kzg {
            c.srs_seed = 0;
            c.srs_extra = c.srs_extra.min(2);
        }
        self.sc.circuits.push(c);
        self.sc.circuits.len() - 1
    }
    fn stmt(&mut self, circuit: usize) -> usize {
        let fill = self.p.u64() >> 16;
        self.sc.stmts.push(Stmt {
            circuit,
            fill,
            over: vec![],
            inst_from: None,
            diff: String::new(),
        });
        self.sc.stmts.len() - 1
    }
    fn msg(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn at(&mut self, dt: u64, step: Step) {
        self.t += dt;
        self.sc.steps.push(Timed { t: self.t, step });
    }
    fn later(&mut self, delay: u64, step: Step) {
        self.sc.steps.push(Timed { t: self.t + delay, step });
    }
    fn rng(&mut self) -> RngSpec {
        RngSpec {
            seed: self.p.u64() >> 16,
            kind: 0,
            fork: None,
        }
    }
    fn any_rng(&mut self) -> RngSpec {
        let mut r = self.rng();
        r.kind = self.p.weighted(&[6, 1, 1, 1]) as u8;
        r
    }
    fn prove(&mut self, node: u8, stmt: usize) -> u32 {
        let rng = self.rng();
        self.prove_with(node, stmt, rng, Plan::default())
    }
    fn prove_with(&mut self, node: u8, stmt: usize, rng: RngSpec, plan: Plan) -> u32 {
        let msg = self.msg();
        let fresh = self.p.chance(1, 3);
        let dt = 1 + self.p.below(400) as u64;
        self.at(dt, Step::Prove { node, stmt, rng, fresh, plan, msg });
        msg
    }
    fn deliver(&mut self, node: u8, stmt: usize, msg: u32, tamper: Tamper) {
        let d = 1 + self.p.below(200) as u64;
        self.later(
            d,
            Step::Deliver { node, stmt, msg, tamper, plan: Plan::default() },
        );
    }
    /// Sends over the simulated network: delayed, perhaps duplicated, dropped
    /// (and sent again) or damaged on the way.
    fn send(&mut self, node: u8, stmt: usize, msg: u32, msgs: &[u32]) {
        let mut delay = 1 + self.p.below(2000) as u64;
        for _ in 0..3 {
            match self.p.below(10) {
                0 => {
                    // lost; the sender repeats it
                    delay += 3000;
                    continue;
                }
                1 => {
                    let t = tamper::random(&mut self.p, msgs);
                    self.later(
                        delay,
                        Step::Deliver { node, stmt, msg, tamper: t, plan: Plan::default() },
                    );
                    delay += 3000;
                    continue;
                }
                2 => {
                    let d2 = delay + self.p.below(5000) as u64;
                    self.later(
                        d2,
                        Step::Deliver {
                            node,
                            stmt,
                            msg,
                            tamper: Tamper::None,
                            plan: Plan::default(),
                        },
                    );
                }
                _ => {}
            }
            break;
        }
        self.later(
            delay,
            Step::Deliver { node, stmt, msg, tamper: Tamper::None, plan: Plan::default() },
        );
    }
    fn crash(&mut self) -> Plan {
        let at = match self.p.below(3) {
            0 => 1 + self.p.below(12) as u64,
            1 => 1 + self.p.below(60) as u64,
            _ => 1 + self.p.below(600) as u64,
        };
        Plan { crash_at: Some(at), pc_fault: None }
    }
    fn pc_fault(&mut self, calls: usize, check: bool) -> Plan {
        let k = 1 + self.p.below(calls) as u64;
        let f = if check && self.p.chance(1, 2) {
            PcFault::False
        } else {
            PcFault::Error(self.p.below(5) as u8)
        };
        Plan { crash_at: None, pc_fault: Some((k, f)) }
    }
    fn done(mut self) -> Scenario {
        self.sc.steps.sort_by_key(|t| t.t);
        self.sc
    }
    /// A change of the assignment that happens not to matter.
    fn harmless(&mut self, stmt: usize) {
        let s = self.sc.stmts[stmt].clone();
        let c = &self.sc.circuits[s.circuit];
        let mut over = vec![];
        for _ in 0..1 + self.p.below(4) {
            let o = Override {
                ty: Ty::W,
                col: self.p.below(c.witness.len()),
                row: self.p.below(c.n()),
                delta: Fv(self.p.nonzero()),
                propagate: false,
            };
            let mut all = over.clone();
            all.push(o.clone());
            let a = c.fill(s.fill, &all);
            if c.violations(&a).is_empty() {
                over = all;
            }
        }
        self.sc.stmts[stmt].over = over;
    }
}

pub fn scenario(prop: &str, seed: u64, index: u64, thorough: bool) -> Scenario {
    // every so many runs use the real backend
    let every = match prop {
        "C07" | "C08" => 24,
        "C13" | "C03" | "C04" | "C05" | "C06" => 32,
        _ => 16,
    };
    let kzg = index % every == every - 1 || prop == "C16";
    let b = B::new(prop, seed, kzg);
    match prop {
        "C01" => c01(b, thorough),
        "C02" => c02(b),
        "C03" | "C04" | "C05" | "C06" => attacks(b),
        "C07" => c07(b),
        "C08" => c08(b),
        "C09" => c09(b),
        "C10" => c10(b),
        "C11" => c11(b),
        "C12" => c12(b),
        "C13" => c13(b),
        "C14" => c14(b),
        "C15" => c15(b),
        "C16" => c16(b),
        "C17" => c17(b),
        "C18" => c18(b),
        "C19" => c19(b),
        _ => panic!("no such property: {}", prop),
    }
}

// ---------------------------------------------------------------------- C01

fn c01(mut b: B, thorough: bool) -> Scenario {
    let mut w = b.want();
    if b.p.chance(1, 25) && !b.sc.kzg {
        w.max_k = 7 + b.p.below(5) as u32;
        w.small = false;
    }
    let _ = thorough;
    let heavy = b.p.chance(1, 3);
    let nc = if heavy && b.p.chance(1, 3) { 2 } else { 1 };
    let mut stmts = vec![];
    for _ in 0..nc {
        let c = b.circuit(&w);
        if w.max_k > 6 {
            widen(&mut b, c);
        }
        for _ in 0..1 + b.p.below(2) {
            let s = b.stmt(c);
            if b.p.chance(1, 3) {
                b.harmless(s);
            }
            stmts.push(s);
        }
    }
    if !heavy {
        for s in stmts {
            let rng = b.any_rng();
            let m = b.prove_with(0, s, rng, Plan::default());
            b.deliver(10, s, m, Tamper::None);
        }
        return b.done();
    }
    let mut msgs = vec![];
    let rounds = 2 + b.p.below(4);
    for _ in 0..rounds {
        let s = *b.p.pick(&stmts);
        let node = b.p.below(2) as u8;
        match b.p.below(8) {
            0 => {
                // the prover dies on the way; it tries again later
                let plan = b.crash();
                let rng = b.any_rng();
                b.prove_with(node, s, rng, plan);
                if b.p.chance(1, 2) {
                    b.at(1, Step::Restart { node });
                }
            }
            1 => {
                let plan = b.pc_fault(8, false);
                let rng = b.any_rng();
                b.prove_with(node, s, rng, plan);
            }
            2 => {
                let n = 10 + b.p.below(3) as u8;
                b.at(1, Step::Restart { node: n });
            }
            _ => {}
        }
        let rng = b.any_rng();
        let m = b.prove_with(node, s, rng, Plan::default());
        msgs.push(m);
        for v in 0..1 + b.p.below(3) {
            let node = 10 + v as u8;
            if b.p.chance(1, 8) {
                // the verifier dies while checking it
                let plan = b.crash();
                b.later(1, Step::Deliver { node, stmt: s, msg: m, tamper: Tamper::None, plan });
            }
            b.send(node, s, m, &msgs);
        }
        if b.p.chance(1, 6) && stmts.len() > 1 {
            // misrouted
            let o = *b.p.pick(&stmts);
            b.deliver(10, o, m, Tamper::None);
        }
    }
    b.done()
}

/// Many wired columns and many lookups.
fn widen(b: &mut B, ci: usize) {
    let mut p = Prng::derive(b.p.u64(), "widen");
    let c = &mut b.sc.circuits[ci];
    let extra = 20 + p.below(20);
    for i in 0..extra {
        c.witness.push(WCol {
            label: format!("wide_{}", i),
            permute: p.chance(3, 4),
            fill: FillKind::Free,
        });
        c.order.push(Unit::Col(c.witness.len() - 1));
    }
    c.dummy_info = false;
    c.removed.retain(|&r| r > c.u);
    c.copies.clear();
    wire(&mut p, c);
    for _ in 0..p.below(10) {
        if let Some(l) = c.lookups.first().cloned() {
            c.lookups.push(l);
        }
    }
    canonical(c);
}

// ---------------------------------------------------------------------- C02

fn pair(b: &mut B) -> (usize, usize, Vec<u32>) {
    let w = b.want();
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let s2 = if b.p.chance(1, 2) { b.stmt(c) } else { s };
    let m1 = b.prove(0, s);
    let m2 = b.prove(0, s);
    let m3 = b.prove(0, s2);
    let mut v = vec![m1, m2, m3];
    if b.p.chance(1, 4) {
        let w = b.want();
        let c2 = b.circuit(&w);
        let s3 = b.stmt(c2);
        v.push(b.prove(0, s3));
    }
    (s, s2, v)
}

fn c02(mut b: B) -> Scenario {
    let (s, _, v) = pair(&mut b);
    let k = if b.sc.kzg { 8 } else { 30 };
    for kind in [0u8, 1, 2, 3, 5] {
        if b.p.chance(2, 3) {
            let salt = b.p.u64() >> 16;
            let max = if kind == 0 { 3 * k } else { k };
            b.at(50, Step::Sweep { node: 10, stmt: s, msg: v[0], kind, salt, max });
        }
    }
    for how in 0..7 {
        b.deliver(10, s, v[0], Tamper::OpeningBits { how });
    }
    for _ in 0..k / 2 {
        let t = tamper::random(&mut b.p, &v);
        b.deliver(10, s, v[0], t);
    }
    b.done()
}

// ---------------------------------------------------------------------- C07

fn c07(mut b: B) -> Scenario {
    let w = b.want();
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let s2 = b.stmt(c);
    let mut other = None;
    if b.p.chance(1, 2) {
        let w = b.want();
        let c2 = b.circuit(&w);
        other = Some(b.stmt(c2));
    }
    let mut msgs: Vec<(usize, u32)> = vec![];
    for st in [Some(s), Some(s), Some(s2), other].into_iter().flatten() {
        let m = b.prove(0, st);
        msgs.push((st, m));
    }
    let ids: Vec<u32> = msgs.iter().map(|m| m.1).collect();
    // proofs in order but for their constraints
    let mut bad = vec![];
    if !b.sc.kzg {
        for _ in 0..2 {
            if let Some(t) = unsatisfied(&mut b, s) {
                bad.push(b.prove(0, t));
            }
        }
    }
    let n = if b.sc.kzg {
        4
    } else if b.p.chance(1, 12) {
        40
    } else {
        6 + b.p.below(14)
    };
    for _ in 0..n {
        let (mut st, mut m) = *b.p.pick(&msgs);
        let node = 10 + b.p.weighted(&[4, 1]) as u8;
        if !bad.is_empty() && b.p.chance(1, 12) {
            (st, m) = (s, *b.p.pick(&bad));
        }
        let plain = |node, stmt, msg, tamper| Step::Deliver {
            node,
            stmt,
            msg,
            tamper,
            plan: Plan::default(),
        };
        let dt = 1 + b.p.below(100) as u64;
        match b.p.below(14) {
            0..=2 => b.at(dt, plain(node, st, m, Tamper::None)),
            3 | 4 => {
                let t = tamper::random(&mut b.p, &ids);
                b.at(dt, plain(node, st, m, t));
            }
            5 => {
                // structure damaged
                let f = b.p.below(15) as u8;
                let t = match b.p.below(4) {
                    0 => Tamper::Clear { field: f },
                    1 => Tamper::Drop { field: f, idx: b.p.below(8) },
                    2 => Tamper::Push { field: f, val: b.p.below(9) as u64 },
                    _ => Tamper::Dup { field: f, idx: b.p.below(8) },
                };
                b.at(dt, plain(node, st, m, t));
            }
            6 | 7 => {
                let f = b.p.below(16) as u8;
                let t = Tamper::Set {
                    field: f,
                    idx: b.p.below(16),
                    op: tamper::Op::Add(Fv(b.p.nonzero())),
                };
                b.at(dt, plain(node, st, m, t));
            }
            8 => {
                let plan = b.crash();
                b.at(dt, Step::Deliver { node, stmt: st, msg: m, tamper: Tamper::None, plan });
            }
            9 => {
                let plan = b.pc_fault(3, true);
                b.at(dt, Step::Deliver { node, stmt: st, msg: m, tamper: Tamper::None, plan });
            }
            10 => b.at(dt, Step::Restart { node }),
            11 | 12 => {
                // another session runs in the middle of this one
                let (st2, m2) = *b.p.pick(&msgs);
                let at = 1 + b.p.below(40) as u64;
                let t1 = if b.p.chance(1, 3) { tamper::random(&mut b.p, &ids) } else { Tamper::None };
                let t2 = if b.p.chance(1, 3) { tamper::random(&mut b.p, &ids) } else { Tamper::None };
                let inner = if b.p.chance(1, 3) {
                    let rng = b.rng();
                    let mm = b.msg();
                    Step::Prove { node: 1, stmt: st2, rng, fresh: false, plan: Plan::default(), msg: mm }
                } else {
                    plain(12, st2, m2, t2)
                };
                b.at(
                    dt,
                    Step::Nested {
                        at,
                        outer: Box::new(plain(node, st, m, t1)),
                        inner: Box::new(inner),
                    },
                );
            }
            _ => {
                // misrouted to another statement
                let (st2, _) = *b.p.pick(&msgs);
                b.at(dt, plain(node, st2, m, Tamper::None));
            }
        }
    }
    if !b.sc.kzg && b.p.chance(1, 3) {
        let mut jobs = vec![];
        for _ in 0..2 + b.p.below(3) {
            let (st, m) = *b.p.pick(&msgs);
            if b.p.chance(1, 5) {
                jobs.push(Job::Prove { stmt: st, rng: b.rng(), times: 1 });
            } else {
                let tamper = if b.p.chance(1, 3) { tamper::random(&mut b.p, &ids) } else { Tamper::None };
                let stmt = if b.p.chance(1, 8) { msgs[0].0 } else { st };
                jobs.push(Job::Verify { stmt, msg: m, tamper, times: 1 + b.p.below(2) as u32 });
            }
        }
        let seed = b.p.u64() >> 16;
        let den = *b.p.pick(&[1usize, 2, 3, 8, 30]);
        b.at(10, Step::Threads { seed, den, jobs });
    }
    // faults have stopped
    for (st, m) in msgs.clone() {
        b.at(10, Step::Deliver { node: 10, stmt: st, msg: m, tamper: Tamper::None, plan: Plan::default() });
    }
    for m in bad {
        b.at(10, Step::Deliver { node: 10, stmt: s, msg: m, tamper: Tamper::None, plan: Plan::default() });
    }
    b.done()
}

/// The statement of `s` with an assignment that violates gates only.
fn unsatisfied(b: &mut B, s: usize) -> Option<usize> {
    let (c, fill) = (b.sc.stmts[s].circuit, b.sc.stmts[s].fill);
    let circ = b.sc.circuits[c].clone();
    let (a, x) = (assign_of(&b.sc, s), circ.fixed_values());
    for _ in 0..6 {
        let o = match bad_gates(&mut b.p, &circ, &a, &x) {
            Some((o, _)) => o,
            None => return None,
        };
        let bad = circ.fill(fill, &o);
        let v = circ.violations(&bad);
        if bad.i == a.i && !v.is_empty() && v.iter().all(|v| is_kind("C03", v)) {
            let t = b.stmt(c);
            b.sc.stmts[t].fill = fill;
            b.sc.stmts[t].over = o;
            return Some(t);
        }
    }
    None
}

// ---------------------------------------------------------------------- C08

fn c08(mut b: B) -> Scenario {
    let w = b.want();
    let c = b.circuit(&w);
    let mut stmts = vec![b.stmt(c), b.stmt(c)];
    if b.p.chance(1, 3) {
        let w = b.want();
        let c2 = b.circuit(&w);
        stmts.push(b.stmt(c2));
    }
    let rngs: Vec<RngSpec> = (0..2).map(|_| b.any_rng()).collect();
    let n = if b.sc.kzg { 3 } else { 5 + b.p.below(8) };
    let mut last = None;
    for _ in 0..n {
        let s = *b.p.pick(&stmts);
        let rng = b.p.pick(&rngs).clone();
        let node = b.p.weighted(&[3, 1]) as u8;
        let dt = 1 + b.p.below(100) as u64;
        let msg = b.msg();
        let fresh = b.p.chance(1, 5);
        let mk = |plan: Plan| Step::Prove { node, stmt: s, rng: rng.clone(), fresh, plan, msg };
        match b.p.below(12) {
            0..=4 => b.at(dt, mk(Plan::default())),
            5 | 6 => {
                let plan = b.crash();
                b.at(dt, mk(plan));
            }
            7 => {
                let plan = b.pc_fault(8, false);
                b.at(dt, mk(plan));
            }
            8 => {
                if let Some((st, m)) = last {
                    let t = if b.p.chance(1, 2) { tamper::random(&mut b.p, &[m]) } else { Tamper::None };
                    b.at(dt, Step::Deliver { node: 10, stmt: st, msg: m, tamper: t, plan: Plan::default() });
                }
                b.at(dt, mk(Plan::default()));
            }
            9 => b.at(dt, Step::Mock { node, stmt: s, fresh }),
            _ => {
                let s2 = *b.p.pick(&stmts);
                let at = 1 + b.p.below(500) as u64;
                let inner = match (b.p.chance(1, 3), last) {
                    (true, Some((st, m))) => Step::Deliver { node: 10, stmt: st, msg: m, tamper: Tamper::None, plan: Plan::default() },
                    _ => {
                        let rng = b.p.pick(&rngs).clone();
                        let mm = b.msg();
                        let plan = if b.p.chance(1, 4) { b.crash() } else { Plan::default() };
                        Step::Prove { node: 2, stmt: s2, rng, fresh: false, plan, msg: mm }
                    }
                };
                b.at(dt, Step::Nested { at, outer: Box::new(mk(Plan::default())), inner: Box::new(inner) });
            }
        }
        last = Some((s, msg));
    }
    // a satisfied statement after an unsatisfied one with the same objects
    if b.p.chance(1, 4) {
        let s = b.stmt(c);
        let col = b.p.below(b.sc.circuits[c].witness.len());
        let row = b.p.below(b.sc.circuits[c].n());
        b.sc.stmts[s].over.push(Override {
            ty: Ty::W,
            col,
            row,
            delta: Fv(b.p.nonzero()),
            propagate: false,
        });
        b.prove(0, s);
    }
    if !b.sc.kzg && b.p.chance(1, 2) {
        let mut jobs = vec![];
        for _ in 0..2 + b.p.below(3) {
            let s = *b.p.pick(&stmts);
            let rng = b.p.pick(&rngs).clone();
            jobs.push(Job::Prove { stmt: s, rng, times: 1 + b.p.below(2) as u32 });
        }
        let seed = b.p.u64() >> 16;
        let den = *b.p.pick(&[1usize, 3, 10, 50, 200]);
        b.at(10, Step::Threads { seed, den, jobs });
    }
    for s in stmts {
        let rng = b.p.pick(&rngs).clone();
        let msg = b.msg();
        b.at(10, Step::Prove { node: 0, stmt: s, rng, fresh: false, plan: Plan::default(), msg });
    }
    b.done()
}

// ---------------------------------------------------------------------- C09

fn c09(mut b: B) -> Scenario {
    let (s, s2, v) = pair(&mut b);
    let k = if b.sc.kzg { 10 } else { 60 };
    for kind in [1u8, 1, 3, 4, 2, 0, 5] {
        if b.p.chance(1, 2) {
            let salt = b.p.u64() >> 16;
            b.at(50, Step::Sweep { node: 10, stmt: s, msg: v[0], kind, salt, max: k });
        }
    }
    // proofs that their prover made with a part too few or too many
    for _ in 0..if b.sc.kzg { 1 } else { 6 } {
        let parts = (b.p.below(17) as u8, b.p.chance(1, 2));
        let rng = b.rng();
        let spec = crate::attack::Spec { parts: Some(parts), ..Default::default() };
        b.at(20, Step::Attack { node: 0, stmt: s, rng, spec });
    }
    for _ in 0..k / 4 {
        let t = match b.p.below(4) {
            0 => Tamper::Garbage {
                seed: b.p.u64() >> 16,
                len: b.p.below(4000) as u64,
            },
            1 => {
                let x = tamper::random(&mut b.p, &v);
                let y = tamper::random(&mut b.p, &v);
                Tamper::Both(Box::new(x), Box::new(y))
            }
            _ => tamper::random(&mut b.p, &v),
        };
        let m = *b.p.pick(&v);
        let st = if b.p.chance(1, 4) { s2 } else { s };
        b.deliver(10, st, m, t);
    }
    b.done()
}

// ---------------------------------------------------------------------- C10

/// The gates' combination over the vanishing polynomial at a random point.
fn identity_at(c: &Circuit, a: &Assign, al: F, x: F) -> F {
    let xs = c.fixed_values();
    let n = c.n() as i64;
    use ark_poly::EvaluationDomain;
    let d = c.domain();
    let at = |t: Ty, i: usize, r: i32| -> F {
        let col = match t {
            Ty::W => &a.w[i],
            Ty::I => &a.i[i],
            Ty::X => &xs[i],
        };
        let k = (r as i64).rem_euclid(n) as usize;
        interp(c, col).evaluate(&(x * d.element(k)))
    };
    let mut acc = F::zero();
    let mut p = F::from(1u64);
    for g in &c.gates {
        acc += p * c.gate_eval(g, &at);
        p *= al;
    }
    acc * inv(c.z_h().evaluate(&x))
}

fn tweak(p: &mut Prng, e: &mut Ex) -> bool {
    // changes one constant, sign or operand somewhere
    match e {
        Ex::C(c) => {
            *c = if *c == 3 { 4 } else { 3 };
            true
        }
        Ex::Q(_, _, r) => {
            *r += 1;
            true
        }
        Ex::Neg(a) => {
            if p.chance(1, 2) {
                *e = (**a).clone();
                true
            } else {
                tweak(p, a)
            }
        }
        Ex::Scale(a, c) => {
            if p.chance(1, 2) {
                *c = if *c == 5 { 6 } else { 5 };
                true
            } else {
                tweak(p, a)
            }
        }
        Ex::Add(a, b) => {
            if p.chance(1, 3) {
                *e = Ex::Sub(a.clone(), b.clone());
                true
            } else if p.chance(1, 2) {
                tweak(p, a)
            } else {
                tweak(p, b)
            }
        }
        Ex::Sub(a, b) => {
            if p.chance(1, 3) {
                *e = Ex::Sub(b.clone(), a.clone());
                true
            } else if p.chance(1, 2) {
                tweak(p, a)
            } else {
                tweak(p, b)
            }
        }
        Ex::Mul(a, b) => {
            if p.chance(1, 2) {
                tweak(p, a)
            } else {
                tweak(p, b)
            }
        }
    }
}

/// Fixed columns that some gate or lookup input reads.
fn queried_fixed(c: &Circuit) -> Vec<usize> {
    let mut out = vec![];
    let mut add = |v: Vec<(Ty, usize, i32)>| {
        for (t, i, _) in v {
            if t == Ty::X && !out.contains(&i) {
                out.push(i)
            }
        }
    };
    for g in &c.gates {
        match g {
            Gate::Out { sel, f, .. } => {
                let mut v = vec![];
                f.queries(&mut v);
                if let Some(s) = sel {
                    v.push((Ty::X, *s, 0));
                }
                add(v);
            }
            Gate::Bits { sel, .. } => add(sel.iter().map(|s| (Ty::X, *s, 0)).collect()),
            Gate::Pre { kind, x, .. } => {
                add((0..kind.widths().2).map(|j| (Ty::X, x + j, 0)).collect())
            }
        }
    }
    for l in &c.lookups {
        for i in &l.inputs {
            let mut v = vec![];
            i.ex().queries(&mut v);
            add(v);
        }
    }
    out
}

/// A circuit that differs from `c` in one thing.
fn mutate(p: &mut Prng, c: &Circuit, a: &Assign) -> Option<(Circuit, String)> {
    let mut m = c.clone();
    let n = c.n();
    let (al, x) = (p.field(), p.field());
    let diff = match p.below(12) {
        0 | 1 => {
            let qf = queried_fixed(c);
            if qf.is_empty() {
                return None;
            }
            let i = *p.pick(&qf);
            let r = match p.below(4) {
                0 => 0,
                1 => n - 1,
                _ => p.below(n),
            };
            m.fixed[i].over.push((r, *p.pick(&[0u64, 1, 2, 17])));
            if m.fixed_values() == c.fixed_values() {
                return None;
            }
            format!("fixed column {} row {}", i, r)
        }
        2 => {
            if c.lookups.is_empty() {
                return None;
            }
            let l = p.below(c.lookups.len());
            let t = p.pick(&c.lookups[l].table).0;
            let r = if p.chance(1, 3) { n - 1 } else { p.below(n) };
            m.tables[t].over.push((r, p.below(40) as u64));
            if m.table_values() == c.table_values() {
                return None;
            }
            format!("table column {} row {}", t, r)
        }
        3 | 4 => {
            if !c.has_perm() {
                return None;
            }
            let perm = c.permuted();
            if !c.copies.is_empty() && p.chance(1, 2) {
                let k = p.below(c.copies.len());
                m.copies.remove(k);
            } else {
                let a = (*p.pick(&perm), p.below(c.u));
                let b = (*p.pick(&perm), p.below(c.u));
                m.copies.push((a, b));
            }
            if m.sigma_columns() == c.sigma_columns() {
                return None;
            }
            "wiring".into()
        }
        5 | 6 => {
            // gate definition
            let k = p.below(c.gates.len());
            match &mut m.gates[k] {
                Gate::Out { f, coef, .. } => {
                    if p.chance(1, 4) {
                        *coef = if *coef == 1 { 2 } else { 1 };
                    } else if !tweak(p, f) {
                        return None;
                    }
                }
                _ => {
                    if c.gates.len() < 2 {
                        return None;
                    }
                    let j = (k + 1) % c.gates.len();
                    m.gates.swap(k, j);
                }
            }
            canonical(&mut m);
            if identity_at(c, a, al, x) == identity_at(&m, a, al, x) {
                return None;
            }
            format!("definition of gate {}", k)
        }
        7 => {
            if c.u + 1 >= n && c.u < 3 {
                return None;
            }
            m.u = if c.u + 1 < n && p.chance(1, 2) { c.u + 1 } else { c.u - 1 };
            if m.u == 0 {
                return None;
            }
            "number of usable rows".into()
        }
        8 => {
            m.srs_seed = c.srs_seed + 1;
            "universal setup".into()
        }
        9 => {
            // vanishing set
            if c.removed.is_empty() {
                if c.u + 1 >= n {
                    return None;
                }
                m.removed = vec![n - 1];
            } else if p.chance(1, 2) {
                m.removed.pop();
            } else {
                m.removed.clear();
            }
            if identity_at(c, a, al, x) == identity_at(&m, a, al, x) {
                return None;
            }
            "enforced rows".into()
        }
        10 => {
            if !c.has_perm() {
                return None;
            }
            m.delta_seed = Some(p.u64() >> 20);
            if m.sigma_columns() == c.sigma_columns() || c.delta_seed == m.delta_seed {
                return None;
            }
            "wiring coset labels".into()
        }
        _ => {
            // lookup input
            if c.lookups.is_empty() {
                return None;
            }
            let l = p.below(c.lookups.len());
            if c.lookups[l].pre.is_some() {
                return None;
            }
            let i = p.below(c.lookups[l].inputs.len());
            let inp = &mut m.lookups[l].inputs[i];
            if p.chance(1, 2) {
                inp.coef = if inp.coef == 2 { 3 } else { 2 };
            } else {
                inp.rest = match &inp.rest {
                    None => Some(Ex::C(3)),
                    Some(e) => Some(add(e.clone(), Ex::C(1))),
                };
            }
            canonical(&mut m);
            let xs = c.fixed_values();
            let same = (0..n).all(|r| {
                c.lookup_tuple(&c.lookups[l], r, a, &xs) == m.lookup_tuple(&m.lookups[l], r, a, &xs)
            });
            if same {
                return None;
            }
            format!("input {} of lookup {}", i, l)
        }
    };
    Some((m, diff))
}

fn c10(mut b: B) -> Scenario {
    let w = b.want();
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let m = b.prove(0, s);
    let base = b.sc.circuits[c].clone();
    let a = assign_of(&b.sc, s);
    let n = base.n();
    // other public inputs for the same circuit
    for _ in 0..3 {
        if base.instance.is_empty() {
            break;
        }
        let s2 = b.stmt(c);
        b.sc.stmts[s2].fill = b.sc.stmts[s].fill;
        let col = b.p.below(base.instance.len());
        let row = match b.p.below(4) {
            0 => 0,
            1 => n - 1,
            2 => base.u.min(n - 1),
            _ => b.p.below(n),
        };
        b.sc.stmts[s2].over.push(Override {
            ty: Ty::I,
            col,
            row,
            delta: Fv(b.p.nonzero()),
            propagate: false,
        });
        b.sc.stmts[s2].diff = format!("public input column {} row {}", col, row);
        b.deliver(10, s2, m, Tamper::None);
    }
    let tries = if b.sc.kzg { 4 } else { 24 };
    let mut made = 0;
    for _ in 0..tries {
        if made >= 10 {
            break;
        }
        if let Some((mut mc, diff)) = mutate(&mut b.p, &base, &a) {
            if b.sc.kzg && mc.srs_seed != base.srs_seed {
                mc.srs_seed = 1;
            }
            made += 1;
            b.sc.circuits.push(mc);
            let k = b.sc.circuits.len() - 1;
            b.sc.stmts.push(Stmt {
                circuit: k,
                fill: b.sc.stmts[s].fill,
                over: vec![],
                inst_from: Some(s),
                diff,
            });
            let st = b.sc.stmts.len() - 1;
            b.deliver(10, st, m, Tamper::None);
        }
    }
    // a proof of a quite different circuit
    if b.p.chance(1, 3) {
        let w = b.want();
        let c2 = b.circuit(&w);
        let s2 = b.stmt(c2);
        b.sc.stmts[s2].diff = "another circuit".into();
        if b.sc.circuits[c2].k != base.k || b.sc.circuits[c2].u != base.u {
            b.deliver(10, s2, m, Tamper::None);
        }
    }
    if !base.instance.is_empty() {
        for col in 0..base.instance.len() {
            for _ in 0..2 {
                let salt = b.p.u64() >> 16;
                b.at(300, Step::PickInstance { node: 10, stmt: s, msg: m, col, salt });
            }
        }
    }
    for _ in 0..if b.sc.kzg { 1 } else { 4 } {
        let rng = b.rng();
        let (prover, kind, idx) = (b.p.chance(1, 3), b.p.below(5) as u8, b.p.below(64));
        let how = *b.p.pick(&[Fit::Missing, Fit::Missing, Fit::Renamed, Fit::Renamed, Fit::Doubled, Fit::Swapped]);
        b.at(50, Step::Unfit { stmt: s, msg: m, prover, kind, idx, how, rng });
    }
    b.deliver(10, s, m, Tamper::None);
    b.done()
}

// ---------------------------------------------------------------------- C11

fn c11(mut b: B) -> Scenario {
    let w = b.want();
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let good = b.prove(0, s);
    let calls = 11;
    // one fault at each backend call
    let order: Vec<u64> = {
        let mut v: Vec<u64> = (1..=calls).collect();
        b.p.shuffle(&mut v);
        if b.sc.kzg {
            v.truncate(3);
        }
        v
    };
    for k in order {
        let e = b.p.below(5) as u8;
        let rng = b.rng();
        let fresh = b.p.chance(1, 3);
        let msg = b.msg();
        b.at(
            5,
            Step::Prove {
                node: 0,
                stmt: s,
                rng,
                fresh,
                plan: Plan { crash_at: None, pc_fault: Some((k, PcFault::Error(e))) },
                msg,
            },
        );
        if b.p.chance(1, 3) {
            let m = b.prove(0, s);
            b.at(1, Step::Deliver { node: 10, stmt: s, msg: m, tamper: Tamper::None, plan: Plan::default() });
        }
    }
    for f in [PcFault::False, PcFault::Error(b.p.below(5) as u8), PcFault::Error(b.p.below(5) as u8)] {
        for k in 1..=2 {
            b.at(
                5,
                Step::Deliver {
                    node: 10,
                    stmt: s,
                    msg: good,
                    tamper: Tamper::None,
                    plan: Plan { crash_at: None, pc_fault: Some((k, f)) },
                },
            );
        }
        b.at(5, Step::Deliver { node: 10, stmt: s, msg: good, tamper: Tamper::None, plan: Plan::default() });
    }
    let m = b.prove(0, s);
    b.at(5, Step::Deliver { node: 10, stmt: s, msg: m, tamper: Tamper::None, plan: Plan::default() });
    // setup
    for k in 1..=2u64 {
        let e = b.p.below(5) as u8;
        let degree = 1 + b.p.below(20);
        let seed = b.p.u64() >> 16;
        b.at(5, Step::Setup { degree, seed, plan: Plan { crash_at: None, pc_fault: Some((k, PcFault::Error(e))) } });
    }
    for degree in [0usize, 1, 2, 3, b.p.below(40)] {
        let seed = b.p.u64() >> 16;
        b.at(5, Step::Setup { degree, seed, plan: Plan::default() });
    }
    let n = b.sc.circuits[c].n();
    let degs = if b.sc.kzg { vec![n - 2] } else { vec![n - 2, n / 2, 1 + b.p.below(n - 2)] };
    for degree in degs {
        let rng = b.rng();
        b.at(5, Step::SmallSrs { stmt: s, degree: degree.max(1), rng });
    }
    b.done()
}

// ---------------------------------------------------------------- C12, C13

fn c12(mut b: B) -> Scenario {
    for _ in 0..if b.sc.kzg { 1 } else { 3 } {
        let mut w = b.want();
        if b.p.chance(2, 3) {
            w.blind_rows = !w.small;
        }
        if b.p.chance(1, 2) {
            w.perm = Some(true);
        }
        if b.p.chance(1, 2) {
            w.lookup = Some(true);
        }
        let c = b.circuit(&w);
        let s = b.stmt(c);
        let (x, y) = (b.rng(), b.rng());
        let salt = b.p.u64() >> 16;
        let probes = if b.sc.kzg { 1 } else { 4 };
        b.at(100, Step::Blinding { stmt: s, a: x, b: y, probes, salt });
    }
    b.done()
}

fn c13(mut b: B) -> Scenario {
    let mut w = b.want();
    if b.p.chance(1, 2) {
        w.perm = Some(true);
    }
    if b.p.chance(1, 2) {
        w.lookup = Some(true);
    }
    let tall = w.max_k > 6;
    if !tall {
        w.max_k = w.max_k.min(5);
    }
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let rng = b.rng();
    let salt = b.p.u64() >> 16;
    let slots = if b.sc.kzg { 2 } else if tall { 5 } else { 14 };
    b.at(100, Step::Transcript { stmt: s, rng, slots, salt });
    b.done()
}

// ---------------------------------------------------------------- C14, C15

fn c14(mut b: B) -> Scenario {
    let mut w = b.want();
    let plain = b.p.chance(1, 2);
    if plain {
        w.perm = Some(false);
        w.lookup = Some(false);
        w.removed = Some(false);
    }
    if b.p.chance(1, 3) {
        w.pre = Some(true);
    }
    let c = b.circuit(&w);
    let n = b.sc.circuits[c].n();
    for round in 0..if b.sc.kzg { 4 } else { 12 } {
        let s = b.stmt(c);
        if round > 0 {
            let k = 1 + b.p.weighted(&[6, 2, 1]);
            for _ in 0..k {
                let nw = b.sc.circuits[c].witness.len();
                let ni = b.sc.circuits[c].instance.len();
                let (ty, col) = if ni > 0 && b.p.chance(1, 4) {
                    (Ty::I, b.p.below(ni))
                } else {
                    (Ty::W, b.p.below(nw))
                };
                let row = match b.p.below(5) {
                    0 => 0,
                    1 => n - 1,
                    2 => b.sc.circuits[c].u,
                    _ => b.p.below(n),
                };
                let delta = Fv(b.p.nonzero());
                let propagate = b.p.chance(1, 4);
                b.sc.stmts[s].over.push(Override { ty, col, row, delta, propagate });
            }
        }
        let node = b.p.below(2) as u8;
        if plain {
            let rng = b.rng();
            b.at(10, Step::MockAgree { node, stmt: s, rng });
        } else {
            let fresh = b.p.chance(1, 2);
            b.at(10, Step::Mock { node, stmt: s, fresh });
        }
        if b.p.chance(1, 6) {
            b.at(1, Step::Restart { node });
        }
        if b.p.chance(1, 6) && round == 0 {
            b.prove(node, s);
        }
    }
    b.done()
}

fn c15(mut b: B) -> Scenario {
    let w = b.want();
    let c = b.circuit(&w);
    let s = b.stmt(c);
    let m1 = b.prove(0, s);
    let m2 = b.prove(0, s);
    let mut all = vec![m1, m2];
    if b.p.chance(1, 3) {
        let w = b.want();
        let c2 = b.circuit(&w);
        let s2 = b.stmt(c2);
        let _ = s2;
        if b.sc.circuits[c2] == b.sc.circuits[c] {
            all.push(b.prove(0, s2));
        }
    }
    for _ in 0..if b.sc.kzg { 6 } else { 24 } {
        let io = |b: &mut B| -> Io {
            let fail = b.p.chance(1, 2);
            Io {
                seed: b.p.u64() >> 16,
                max_chunk: *b.p.pick(&[0usize, 1, 1, 2, 3, 7, 8, 9, 31, 33, 64, 100]),
                interrupt: *b.p.pick(&[0usize, 0, 2, 3, 10]),
                fail_at: if fail {
                    Some(match b.p.below(4) {
                        0 => b.p.below(16) as u64,
                        1 => b.p.below(300) as u64,
                        _ => b.p.below(4000) as u64,
                    })
                } else {
                    None
                },
                fail_kind: b.p.below(6) as u8,
            }
        };
        let write = io(&mut b);
        let read = io(&mut b);
        let msgs = if b.p.chance(1, 3) { all.clone() } else { vec![*b.p.pick(&all)] };
        let uncompressed = b.p.chance(1, 3);
        b.at(20, Step::Io { node: 10, stmt: s, msgs, write, read, uncompressed });
    }
    b.done()
}

// ---------------------------------------------------------------------- C16

/// Parties, aggregators and the history of what reaches them when.
fn c16(mut b: B) -> Scenario {
    use crate::fold::{Op, Party};
    let m = match b.p.below(6) {
        0 => 1,
        5 if b.p.chance(1, 4) => 20 + b.p.below(260),
        5 => 20 + b.p.below(60),
        _ => 2 + b.p.below(9),
    };
    let p = &mut b.p;
    let parties: Vec<Party> = (0..m)
        .map(|i| Party {
            seed: p.u64() >> 16,
            kind: p.weighted(&[6, 1, 1, if i > 0 { 2 } else { 0 }, if i > 0 { 2 } else { 0 }]) as u8,
            of: if i > 0 { p.below(i) } else { 0 },
            deg: p.below(9),
            hide: p.chance(1, 2),
            weight: p.weighted(&[1, 4, 2, 2, 5]) as u8,
        })
        .collect();
    let aggs = 1 + p.below(3);
    // every contribution is sent to every aggregator; copies are lost,
    // repeated and overtake each other
    let mut ops = vec![];
    let loss = *p.pick(&[0usize, 3, 8]);
    let twice = *p.pick(&[0usize, 3, 8]);
    for agg in 0..aggs {
        let batch = m > 12 || p.chance(1, 3);
        let mut left: Vec<usize> = (0..m).collect();
        p.shuffle(&mut left);
        while let Some(party) = left.pop() {
            if loss > 0 && p.chance(1, loss) {
                continue;
            }
            if batch {
                let most = if m > 12 { *p.pick(&[10usize, 40, 100, 300]) } else { 4 };
                let k = 1 + p.below(most);
                let mut parties = vec![party];
                while parties.len() < k && !left.is_empty() {
                    parties.push(left.pop().unwrap());
                }
                ops.push(Op::Batch { agg, parties, style: p.below(2) as u8 });
            } else {
                ops.push(Op::Recv { agg, party, style: p.below(6) as u8 });
            }
            if twice > 0 && p.chance(1, twice) {
                ops.push(Op::Recv { agg, party, style: p.below(6) as u8 });
            }
        }
    }
    p.shuffle(&mut ops);
    // what happens to the aggregators meanwhile
    for _ in 0..p.below(6) + 2 {
        let at = p.below(ops.len() + 1);
        let agg = p.below(aggs);
        let op = match p.below(7) {
            0 | 1 => Op::Checkpoint { agg },
            2 => Op::Crash { agg },
            3 => Op::Retract { agg, party: p.below(m), style: p.below(6) as u8 },
            4 => Op::Rescale { agg, by: *p.pick(&[0u8, 1, 2, 2, 3, 4, 4]), seed: p.u64() >> 16 },
            5 => Op::Merge { from: agg, to: p.below(aggs) },
            _ => Op::Audit { agg, seed: p.u64() >> 16 },
        };
        ops.insert(at, op);
    }
    ops.push(Op::Quiesce);
    for agg in 0..aggs {
        ops.push(Op::Audit { agg, seed: p.u64() >> 16 });
    }
    // all that was received is taken back
    if m <= 12 && p.chance(1, 2) {
        for party in 0..m {
            ops.push(Op::Retract { agg: 0, party, style: p.below(6) as u8 });
        }
        ops.push(Op::Audit { agg: 0, seed: p.u64() >> 16 });
    }
    b.at(100, Step::Fold { aggs, parties, ops });
    b.done()
}

// ---------------------------------------------------------------------- C17

/// A formula of any shape, with a bounded degree.
fn formula(p: &mut Prng, size: usize, deg: usize, names: &[Vec<String>; 3]) -> Ex {
    if size <= 1 {
        let k = p.below(3);
        if names[k].is_empty() || p.chance(1, 5) || deg == 0 {
            return Ex::C(p.below(40) as u64);
        }
        let r = match p.below(6) {
            0 => 1,
            1 => -1,
            2 => p.below(12) as i32 - 6,
            _ => 0,
        };
        return Ex::Q([Ty::W, Ty::I, Ty::X][k], p.below(names[k].len()), r);
    }
    let l = 1 + p.below(size);
    let r = size - l.min(size - 1);
    match p.below(7) {
        0 | 1 => Ex::Add(Box::new(formula(p, l, deg, names)), Box::new(formula(p, r, deg, names))),
        2 => Ex::Sub(Box::new(formula(p, l, deg, names)), Box::new(formula(p, r, deg, names))),
        3 | 4 => {
            let d = p.below(deg + 1);
            Ex::Mul(Box::new(formula(p, l, d, names)), Box::new(formula(p, r, deg - d, names)))
        }
        5 => Ex::Neg(Box::new(formula(p, size - 1, deg, names))),
        _ => {
            let k = p.below(40) as u64;
            Ex::Scale(Box::new(formula(p, size - 1, deg, names)), k)
        }
    }
}

/// Every node writes the formulas for itself; what they mean has to be the same
/// for the indexer, provers, verifiers and mock provers, whatever else happens.
fn c17(mut b: B) -> Scenario {
    for _ in 0..3 {
        let p = &mut b.p;
        let mut names: [Vec<String>; 3] = Default::default();
        for v in names.iter_mut() {
            for _ in 0..p.below(4) {
                // the same name may stand for a column of each kind
                let l = format!("c{}", p.below(6));
                if !v.contains(&l) {
                    v.push(l);
                }
            }
        }
        let forms = (0..10)
            .map(|_| {
                let size = *p.pick(&[1usize, 2, 3, 4, 6, 10, 20, 40]);
                let deg = *p.pick(&[0usize, 1, 2, 3, 6]);
                formula(p, size, deg, &names)
            })
            .collect();
        let seed = b.p.u64() >> 16;
        b.at(5, Step::Formulas { names, forms, seed });
    }
    let mut w = b.want();
    w.perm = Some(false);
    if b.p.chance(2, 3) {
        w.lookup = Some(false);
    }
    let c = b.circuit(&w);
    b.sc.circuits[c].own = *b.p.pick(&[0u8, 1, 2, 3]);
    let (nw, ni, n) = {
        let c = &b.sc.circuits[c];
        (c.witness.len(), c.instance.len(), c.n())
    };
    for round in 0..if b.sc.kzg { 2 } else { 6 } {
        let s = b.stmt(c);
        let node = b.p.below(2) as u8;
        if round % 2 == 0 {
            let rng = b.rng();
            let m = b.prove_with(node, s, rng, Plan::default());
            b.deliver(10 + node, s, m, Tamper::None);
        } else {
            let (ty, col) = if ni > 0 && b.p.chance(1, 4) {
                (Ty::I, b.p.below(ni))
            } else {
                (Ty::W, b.p.below(nw))
            };
            let row = b.p.below(n);
            let delta = Fv(b.p.nonzero());
            b.sc.stmts[s].over.push(Override { ty, col, row, delta, propagate: false });
        }
        let fresh = b.p.chance(1, 2);
        b.at(10, Step::Mock { node, stmt: s, fresh });
        if b.p.chance(1, 4) {
            b.at(1, Step::Restart { node });
        }
    }
    b.done()
}

// ------------------------------------------------------- C03, C04, C05, C06

// ---------------------------------------------------------------------- C18

/// A statement that breaks gates, wiring, lookups or anything at all.
fn broken(b: &mut B, s: usize) -> Option<usize> {
    let (c, fill) = (b.sc.stmts[s].circuit, b.sc.stmts[s].fill);
    let circ = b.sc.circuits[c].clone();
    let (a, x, t) = (assign_of(&b.sc, s), circ.fixed_values(), circ.table_values());
    for _ in 0..8 {
        let p = &mut b.p;
        let o = match p.below(4) {
            0 => bad_gates(p, &circ, &a, &x).map(|o| o.0),
            1 => bad_copies(p, &circ),
            2 => bad_lookup(p, &circ, &a, &x, &t),
            _ => {
                let many = if p.chance(1, 8) { 40 } else { 1 + p.below(3) };
                let mut o = vec![];
                for _ in 0..many {
                    let ni = circ.instance.len();
                    let (ty, col) = if ni > 0 && p.chance(1, 4) {
                        (Ty::I, p.below(ni))
                    } else {
                        (Ty::W, p.below(circ.witness.len()))
                    };
                    let row = if p.chance(1, 2) { edge_row(p, &circ) } else { p.below(circ.n()) };
                    let d = if p.chance(1, 2) { small(p) } else { p.nonzero() };
                    o.push(over(ty, col, row, d, p.chance(1, 3)));
                }
                Some(o)
            }
        };
        let o = match o {
            Some(o) => o,
            None => continue,
        };
        if !circ.violations(&circ.fill(fill, &o)).is_empty() {
            let t = b.stmt(c);
            b.sc.stmts[t].fill = fill;
            b.sc.stmts[t].over = o;
            return Some(t);
        }
    }
    None
}

fn c18(mut b: B) -> Scenario {
    let mut w = b.want();
    match b.p.below(4) {
        0 => w.lookup = Some(true),
        1 => w.perm = Some(true),
        _ => {}
    }
    let c = b.circuit(&w);
    let good = vec![b.stmt(c), b.stmt(c)];
    let mut bad = vec![];
    for _ in 0..if b.sc.kzg { 2 } else { 6 } {
        let s = *b.p.pick(&good);
        bad.extend(broken(&mut b, s));
    }
    for &s in &bad {
        let node = b.p.below(2) as u8;
        let v = 10 + b.p.below(2) as u8;
        match b.p.below(10) {
            0 => {
                let plan = b.crash();
                let rng = b.any_rng();
                b.prove_with(node, s, rng, plan);
            }
            1 => {
                let plan = b.pc_fault(8, false);
                let rng = b.any_rng();
                b.prove_with(node, s, rng, plan);
            }
            2 => {
                let node = if b.p.chance(1, 2) { node } else { v };
                b.at(1, Step::Restart { node });
            }
            _ => {}
        }
        let rng = b.any_rng();
        let m = b.prove_with(node, s, rng, Plan::default());
        b.at(1, Step::Deliver { node: v, stmt: s, msg: m, tamper: Tamper::None, plan: Plan::default() });
        if b.p.chance(1, 4) {
            // again, and elsewhere
            b.deliver(v, s, m, Tamper::None);
            b.deliver(21 - v, s, m, Tamper::None);
        }
        if b.p.chance(1, 3) {
            let g = *b.p.pick(&good);
            let m = b.prove(node, g);
            b.send(v, g, m, &[m]);
        }
    }
    if bad.len() > 1 && b.p.chance(1, 2) {
        // while another proof is under way
        let (s, g) = (*b.p.pick(&bad), *b.p.pick(&good));
        let at = 1 + b.p.below(400) as u64;
        let (m1, m2) = (b.msg(), b.msg());
        let (r1, r2) = (b.rng(), b.rng());
        let mk = |stmt, rng, msg, node| Step::Prove { node, stmt, rng, fresh: false, plan: Plan::default(), msg };
        let (x, y) = (mk(s, r1, m1, 0), mk(g, r2, m2, 1));
        let (outer, inner) = if b.p.chance(1, 2) { (x, y) } else { (y, x) };
        b.at(10, Step::Nested { at, outer: Box::new(outer), inner: Box::new(inner) });
        b.deliver(10, s, m1, Tamper::None);
        b.deliver(10, g, m2, Tamper::None);
    }
    // faults stop: satisfied statements are proved and accepted
    b.t += 10_000;
    for node in 0..2u8 {
        let g = *b.p.pick(&good);
        let m = b.prove(node, g);
        b.at(1, Step::Deliver { node: 10 + node, stmt: g, msg: m, tamper: Tamper::None, plan: Plan::default() });
    }
    b.done()
}

// ---------------------------------------------------------------------- C19

fn c19(mut b: B) -> Scenario {
    use crate::mopen::{a_set, Change, Cheat, MCol, MOp};
    let kzg = b.sc.kzg;
    let mut steps = vec![];
    for _ in 0..1 + b.p.below(2) {
        let p = &mut b.p;
        let k = 1 + p.below(5) as u32;
        let n = 1usize << k;
        let degree = if kzg { *p.pick(&[7usize, 20]) } else { *p.pick(&[4usize, 7, 16, 33]) };
        let sets: Vec<Vec<i32>> = (0..1 + p.below(6)).map(|_| a_set(p, n)).collect();
        let m = match p.below(if kzg { 6 } else { 10 }) {
            0 => p.below(2),
            9 => 20 + p.below(60),
            _ => 1 + p.below(8),
        };
        let sets = if m >= 20 { sets[..sets.len().min(2)].to_vec() } else { sets };
        let cols: Vec<MCol> = (0..m)
            .map(|i| MCol {
                seed: p.u64() >> 16,
                kind: p.weighted(&[8, 1, 1, if i > 0 { 1 } else { 0 }, if i > 0 { 1 } else { 0 }]) as u8,
                of: if i > 0 { p.below(i) } else { 0 },
                deg: if p.chance(1, 3) { degree } else { p.below(degree + 1) },
                hide: p.chance(1, 2),
                set: p.pick(&sets).clone(),
            })
            .collect();
        let claims: Vec<(usize, usize)> =
            cols.iter().enumerate().flat_map(|(i, c)| (0..c.set.len()).map(move |j| (i, j))).collect();
        let mut ops = vec![];
        let mut good: Vec<u32> = vec![];
        let points: Vec<u64> = (0..3).map(|_| p.u64() >> 16).collect();
        let rounds = if kzg { 6 } else { 20 };
        for msg in 0..rounds as u32 {
            let point = *p.pick(&points);
            let ctx = p.below(3) as u64;
            let rng = RngSpec { seed: p.u64() >> 16, kind: 0, fork: None };
            let verifier = p.below(2) as u8;
            let amount = |p: &mut Prng| if p.chance(1, 2) { 1 } else { p.below(1000) as i64 - 500 };
            let plain = |plan| MOp::Check { verifier, msg, change: Change::None, plan };
            match p.below(8) {
                0 | 1 | 2 if !claims.is_empty() => {
                    // false from the start
                    let (c, at) = *p.pick(&claims);
                    let d = amount(p);
                    let mut v = vec![(c, at, d)];
                    let same = |f: &dyn Fn(&(usize, usize)) -> bool| -> Vec<(usize, usize)> {
                        claims.iter().filter(|x| **x != (c, at) && f(x)).cloned().collect()
                    };
                    let mut balance = false;
                    let others = match p.below(6) {
                        0 => same(&|x| x.0 == c),
                        1 => {
                            // at a likely distance among the columns of the set
                            let mut v = same(&|x| cols[x.0].set == cols[c].set && x.1 == at);
                            let of: Vec<usize> =
                                (0..m).filter(|&x| cols[x].set == cols[c].set).collect();
                            let here = of.iter().position(|&x| x == c).unwrap_or(0);
                            let d = *p.pick(&[1usize, 2, 4, 8, 10, 16, 32, 64]);
                            if let Some(&x) = of.get((here + d) % of.len().max(1)) {
                                if x != c && p.chance(2, 3) {
                                    v = vec![(x, at)];
                                }
                            }
                            v
                        }
                        2 => same(&|x| cols[x.0].set != cols[c].set),
                        5 => {
                            balance = true;
                            let pos = |c: usize| (0..c).filter(|&x| cols[x].set == cols[c].set).count();
                            same(&|x| {
                                let (a, b) = (cols[x.0].set[x.1], cols[c].set[at]);
                                cols[x.0].set != cols[c].set
                                    && (a - b).rem_euclid(n as i32) == 0
                                    && pos(x.0) == pos(c)
                            })
                        }
                        3 => same(&|_| true),
                        _ => vec![],
                    };
                    if !others.is_empty() {
                        let o = *p.pick(&others);
                        v.push((o.0, o.1, if p.chance(1, 5) { d } else { -d }));
                        if p.chance(1, 6) {
                            let o = *p.pick(&others);
                            v.push((o.0, o.1, amount(p)));
                        }
                    }
                    let cheat = Cheat {
                        claims: v,
                        balance,
                        adapt: if balance { 0 } else { *p.pick(&[0u8, 0, 0, 1, 2, 3, 4, 5, 6, 6, 6]) },
                        set: p.below(8),
                        other: p.below(8),
                    };
                    ops.push(MOp::Prove { msg, point, ctx, rng, plan: Plan::default(), cheat: Some(cheat) });
                    ops.push(plain(Plan::default()));
                }
                kind => {
                    if p.chance(1, 5) {
                        let plan = if p.chance(1, 2) {
                            Plan { crash_at: Some(1 + p.below(20) as u64), pc_fault: None }
                        } else {
                            let k = 1 + p.below(4) as u64;
                            Plan { crash_at: None, pc_fault: Some((k, PcFault::Error(p.below(5) as u8))) }
                        };
                        let rng = rng.clone();
                        ops.push(MOp::Prove { msg, point, ctx, rng, plan, cheat: None });
                    }
                    ops.push(MOp::Prove { msg, point, ctx, rng, plan: Plan::default(), cheat: None });
                    if kind == 3 {
                        ops.push(plain(Plan::default()));
                    }
                    for _ in 0..if kzg { 1 } else { 1 + p.below(5) } {
                        let by = match amount(p) {
                            0 => 1,
                            d => d,
                        };
                        let (col, at) = if claims.is_empty() { (0, 0) } else { *p.pick(&claims) };
                        let change = match p.below(12) {
                            0 => Change::QEval { at: p.below(8), by },
                            1 => Change::QSwap { a: p.below(8), b: p.below(8) },
                            2 => Change::QLen { more: p.chance(1, 2) },
                            3 => Change::FCommit { how: p.below(5) as u8 },
                            4 => Change::Opening { how: p.below(7) as u8 },
                            5 if !good.is_empty() => {
                                Change::Splice { from: *p.pick(&good), part: p.below(3) as u8 }
                            }
                            6 | 7 => Change::Claim { col, at, by },
                            8 => Change::SwapClaims { a: p.below(200), b: p.below(200) },
                            9 => Change::SwapCommitments { a: p.below(100), b: p.below(100) },
                            10 => Change::LackClaim { col, at },
                            _ => Change::LackCommitment { col: p.below(m + 1) },
                        };
                        let verifier = p.below(2) as u8;
                        ops.push(MOp::Check { verifier, msg, change, plan: Plan::default() });
                    }
                    if p.chance(1, 6) {
                        let plan = if p.chance(1, 3) {
                            Plan { crash_at: Some(1 + p.below(12) as u64), pc_fault: None }
                        } else {
                            let f = if p.chance(1, 2) { PcFault::False } else { PcFault::Error(p.below(5) as u8) };
                            Plan { crash_at: None, pc_fault: Some((1, f)) }
                        };
                        ops.push(plain(plan));
                    }
                    if p.chance(1, 8) {
                        ops.push(MOp::Restart { verifier });
                    }
                    ops.push(plain(Plan::default()));
                    if !good.is_empty() && p.chance(1, 3) {
                        // an old one again
                        let msg = *p.pick(&good);
                        ops.push(MOp::Check { verifier, msg, change: Change::None, plan: Plan::default() });
                    }
                    good.push(msg);
                }
            }
        }
        steps.push(Step::Opens { k, degree, cols, ops });
    }
    for s in steps {
        b.at(50, s);
    }
    b.done()
}

fn is_kind(prop: &str, v: &Violation) -> bool {
    match prop {
        "C03" => matches!(v, Violation::Gate { .. }),
        "C04" => matches!(v, Violation::Copy { .. }),
        "C05" => matches!(v, Violation::Lookup { .. }),
        _ => true,
    }
}

fn edge_row(p: &mut Prng, c: &Circuit) -> usize {
    let n = c.n();
    match p.below(7) {
        0 => 0,
        1 => n - 1,
        2 => c.u.saturating_sub(1),
        3 => c.u.min(n - 1),
        4 => 1 % n,
        _ => p.below(n),
    }
}

fn small(p: &mut Prng) -> F {
    let v = F::from(1 + p.below(4) as u64);
    match p.below(3) {
        0 => v,
        1 => -v,
        _ => p.nonzero(),
    }
}

/// Witness and instance cells that a gate reads at a row.
fn gate_cells(c: &Circuit, g: &Gate, row: usize) -> Vec<(Ty, usize, usize)> {
    let seen = std::cell::RefCell::new(vec![]);
    c.gate_eval(g, &|t, k, r| {
        seen.borrow_mut().push((t, k, rot(row, r, c.n())));
        F::from(2u64)
    });
    let mut v: Vec<_> = seen.into_inner().into_iter().filter(|q| q.0 != Ty::X).collect();
    v.sort();
    v.dedup();
    v
}

fn over(t: Ty, col: usize, row: usize, d: F, propagate: bool) -> Override {
    Override { ty: t, col, row, delta: Fv(d), propagate }
}

/// The change of a cell that makes a gate take a value at a row, if the gate
/// is affine in it.
fn shift_to(c: &Circuit, g: &Gate, row: usize, a: &Assign, x: &[Col], cell: (Ty, usize, usize), want: F) -> Option<F> {
    let at = |d: F| {
        let mut b = a.clone();
        match cell.0 {
            Ty::W => b.w[cell.1][cell.2] += d,
            _ => b.i[cell.1][cell.2] += d,
        }
        c.gate_value(g, row, &b, x)
    };
    let (v0, v1) = (at(F::zero()), at(F::from(1u64)));
    if v0 == v1 {
        return None;
    }
    let d = (want - v0) * inv(v1 - v0);
    (at(d) == want).then_some(d)
}

/// Ways to leave the circuit's gates.
fn bad_gates(p: &mut Prng, c: &Circuit, a: &Assign, x: &[Col]) -> Option<(Vec<Override>, bool)> {
    let rows = c.enforced();
    if c.gates.is_empty() || rows.is_empty() {
        return None;
    }
    let gi = p.below(c.gates.len());
    let g = &c.gates[gi];
    let row = {
        let r = edge_row(p, c);
        if rows.contains(&r) {
            r
        } else {
            *p.pick(&rows)
        }
    };
    let cells = gate_cells(c, g, row);
    if cells.is_empty() {
        return None;
    }
    let cell = *p.pick(&cells);
    match p.below(8) {
        // one cell
        0..=3 => {
            let d = small(p);
            Some((vec![over(cell.0, cell.1, cell.2, d, p.chance(1, 4))], false))
        }
        // opposite violations in two rows
        4 => {
            let r2 = *p.pick(&rows);
            if r2 == row {
                return None;
            }
            let v = small(p);
            let d1 = shift_to(c, g, row, a, x, cell, v)?;
            let cell2 = (cell.0, cell.1, rot(cell.2, r2 as i32 - row as i32, c.n()));
            let sg = if p.chance(2, 3) { -v } else { v };
            let d2 = shift_to(c, g, r2, a, x, cell2, sg)?;
            Some((
                vec![over(cell.0, cell.1, cell.2, d1, false), over(cell2.0, cell2.1, cell2.2, d2, false)],
                false,
            ))
        }
        // opposite violations of two gates in one row
        5 => {
            if c.gates.len() < 2 {
                return None;
            }
            let j = (gi + 1 + p.below(c.gates.len() - 1)) % c.gates.len();
            let h = &c.gates[j];
            let hc = gate_cells(c, h, row);
            if hc.is_empty() {
                return None;
            }
            let v = small(p);
            let d1 = shift_to(c, g, row, a, x, cell, v)?;
            let mut b = a.clone();
            match cell.0 {
                Ty::W => b.w[cell.1][cell.2] += d1,
                _ => b.i[cell.1][cell.2] += d1,
            }
            let cell2 = *p.pick(&hc);
            let sg = if p.chance(2, 3) { -v } else { v };
            let d2 = shift_to(c, h, row, &b, x, cell2, sg)?;
            let mut o = vec![over(cell.0, cell.1, cell.2, d1, false)];
            o.push(over(cell2.0, cell2.1, cell2.2, d2, false));
            Some((o, false))
        }
        // wrong by a constant everywhere
        6 => {
            let v = small(p);
            let mut o = vec![];
            for &r in &rows {
                let cl = (cell.0, cell.1, rot(cell.2, r as i32 - row as i32, c.n()));
                if let Some(d) = shift_to(c, g, r, a, x, cl, v) {
                    if !d.is_zero() {
                        o.push(over(cl.0, cl.1, cl.2, d, false));
                    }
                }
            }
            Some((o, false))
        }
        // plus or minus one in the first row, to be balanced by an accumulator
        _ => gate_off_by_one(p, c, g, a, x).map(|o| (vec![o], true)),
    }
}

fn gate_off_by_one(p: &mut Prng, c: &Circuit, g: &Gate, a: &Assign, x: &[Col]) -> Option<Override> {
    let z = gate_cells(c, g, 0);
    if z.is_empty() {
        return None;
    }
    let cl = *p.pick(&z);
    let v = if p.chance(2, 3) { -F::from(1u64) } else { F::from(1u64) };
    let d = shift_to(c, g, 0, a, x, cl, v)?;
    Some(over(cl.0, cl.1, cl.2, d, false))
}

fn bad_copies(p: &mut Prng, c: &Circuit) -> Option<Vec<Override>> {
    if c.copies.is_empty() {
        return None;
    }
    let mut o = vec![];
    for _ in 0..1 + p.weighted(&[4, 1]) {
        let mut k = p.below(c.copies.len());
        if p.chance(1, 2) {
            let want = if p.chance(1, 2) { 0 } else { c.u.saturating_sub(1) };
            if let Some(j) = c.copies.iter().position(|(s, d)| d.1 == want || s.1 == want) {
                k = j;
            }
        }
        let d = c.copies[k].1;
        o.push(over(Ty::W, d.0, d.1, small(p), true));
    }
    if p.chance(1, 4) {
        // swap of two values: the multiset of the column stays the same
        let d = c.copies[p.below(c.copies.len())].1;
        let r2 = p.below(c.u);
        return Some(vec![
            over(Ty::W, d.0, d.1, F::from(1u64), true),
            over(Ty::W, d.0, r2, -F::from(1u64), true),
        ]);
    }
    Some(o)
}

fn bad_lookup(p: &mut Prng, c: &Circuit, a: &Assign, x: &[Col], t: &[Col]) -> Option<Vec<Override>> {
    if c.lookups.is_empty() || c.u == 0 {
        return None;
    }
    let l = &c.lookups[p.below(c.lookups.len())];
    let row = match p.below(5) {
        0 => 0,
        1 => c.u - 1,
        _ => p.below(c.u),
    };
    let n = c.n();
    let now = c.lookup_tuple(l, row, a, x);
    let s = p.below(c.u);
    let trow = |s: usize| -> Vec<F> { l.table.iter().map(|&(k, r)| t[k][rot(s, r, n)]).collect() };
    let mut want = now.clone();
    match p.below(6) {
        0 => {
            let k = p.below(want.len());
            want[k] += small(p);
        }
        1 => {
            // components of different rows
            for (k, w) in want.iter_mut().enumerate() {
                let _ = k;
                let s = p.below(c.u);
                *w = trow(s)[k];
            }
        }
        2 if want.len() > 1 => {
            // same sum
            let v = small(p);
            want[0] += v;
            let k = 1 + p.below(want.len() - 1);
            want[k] -= v;
        }
        3 => {
            // a table row that is not among the usable ones
            if c.u >= n {
                return None;
            }
            want = trow(c.u + p.below(n - c.u));
        }
        4 => {
            want = trow(s);
            for w in want.iter_mut() {
                *w -= F::from(1u64);
            }
        }
        _ => {
            want = trow(s);
            let k = p.below(want.len());
            want[k] = if p.chance(1, 2) { F::zero() } else { p.field() };
        }
    }
    let mut o = vec![];
    for (k, inp) in l.inputs.iter().enumerate() {
        let f = inp.factor(x, row);
        if f.is_zero() {
            continue;
        }
        let d = (want[k] - now[k]) * inv(f);
        if !d.is_zero() {
            o.push(over(Ty::W, inp.col, rot(row, inp.rot, n), d, p.chance(1, 2)));
        }
    }
    Some(o)
}

fn loc(p: &mut Prng, u: usize) -> crate::attack::Loc {
    use crate::attack::Loc::*;
    let row = match p.below(4) {
        0 => 0,
        1 => u.saturating_sub(1),
        _ => p.below(u.max(1)),
    };
    match p.below(4) {
        0 => Start,
        1 => Stitch(p.below(8)),
        2 => Prod(p.below(8), row),
        _ => Prod(if p.chance(1, 2) { 0 } else { 7 }, row),
    }
}

fn chain(p: &mut Prng, u: usize) -> crate::attack::Chain {
    use crate::attack::{Chain::*, Loc};
    match p.below(8) {
        0 => Plain,
        1..=3 => Fix(loc(p, u)),
        4 | 5 => Zero(loc(p, u)),
        _ => {
            let r = if p.chance(1, 2) { 0 } else { p.below(u.max(1)) };
            let one = |p: &mut Prng| {
                if r == 0 && p.chance(1, 2) {
                    if p.chance(1, 2) {
                        Loc::Start
                    } else {
                        Loc::Stitch(p.below(8))
                    }
                } else {
                    Loc::Prod(p.below(8), r)
                }
            };
            let (a, b) = (one(p), one(p));
            Pair(a, b, p.chance(1, 2))
        }
    }
}

fn lk_specs(p: &mut Prng, viol: &[Violation], u: usize) -> Vec<crate::attack::LkSpec> {
    use crate::attack::{Chain, Helper, LkSpec, Loc};
    let mut ls: Vec<usize> = viol
        .iter()
        .filter_map(|v| match v {
            Violation::Lookup { lookup, .. } => Some(*lookup),
            _ => None,
        })
        .collect();
    ls.sort();
    ls.dedup();
    if ls.len() == 2 && p.chance(1, 3) {
        let h = if p.chance(1, 2) { Helper::Inputs } else { Helper::Table };
        let c = Chain::Twin(p.below(u.max(1)), 0, p.chance(1, 2));
        return ls.into_iter().map(|lookup| LkSpec { lookup, helper: h, chain: c }).collect();
    }
    ls.into_iter()
        .map(|lookup| {
            let row = match p.below(4) {
                0 => 0,
                1 => u.saturating_sub(1),
                _ => p.below(u.max(1)),
            };
            let (helper, chain) = match p.below(11) {
                10 => (Helper::Wrap(p.chance(1, 4)), Chain::Plain),
                0..=4 => {
                    let h = if p.chance(1, 2) { Helper::Inputs } else { Helper::Table };
                    let c = match p.below(6) {
                        0 => Chain::Plain,
                        1 | 2 => Chain::Fix(if p.chance(1, 3) { Loc::Start } else { Loc::Prod(0, row) }),
                        3 | 4 => Chain::Zero(if p.chance(1, 2) { Loc::Start } else { Loc::Prod(0, row) }),
                        _ => Chain::Pair(Loc::Start, Loc::Prod(0, 0), p.chance(1, 2)),
                    };
                    (h, c)
                }
                5 | 6 => (Helper::Row(row), Chain::Plain),
                7 => (Helper::First, Chain::Plain),
                8 => (Helper::Diff, Chain::Zero(Loc::Start)),
                _ => (Helper::Plain, Chain::Zero(Loc::Start)),
            };
            LkSpec { lookup, helper, chain }
        })
        .collect()
}

fn claim_forge(p: &mut Prng) -> crate::attack::Forge {
    use crate::attack::Forge::*;
    let (i, j) = (p.below(4096), p.below(4096));
    match p.below(13) {
        10 | 11 | 12 => Kin(i, j),
        8 | 9 => Equal(i, j),
        0 => Shift(i),
        1 | 2 => Move(i, j),
        3 | 4 => Rewind(i, j),
        5 | 6 => Folded(i, j, [0, 1, 2, 3, 4, 4][p.below(6)]),
        _ => Across(i, j),
    }
}

fn attacks(mut b: B) -> Scenario {
    use crate::attack::{Chain, Forge, LkSpec, Loc, Spec};
    let prop = b.sc.prop.clone();
    let mut w = b.want();
    match prop.as_str() {
        "C03" => {
            if b.p.chance(1, 2) {
                w.pre = Some(true);
            }
        }
        "C04" => {
            w.perm = Some(true);
            w.blind_rows = b.p.chance(1, 3) && !w.small;
        }
        "C05" => {
            w.lookup = Some(true);
            if b.p.chance(1, 3) {
                w.perm = Some(false);
            }
        }
        _ => {}
    }
    let mut c = b.circuit(&w);
    for _ in 0..8 {
        if prop == "C04" && b.sc.circuits[c].copies.is_empty() {
            b.sc.circuits.pop();
            c = b.circuit(&w);
        }
    }
    let base = b.stmt(c);
    let circ = b.sc.circuits[c].clone();
    let a = assign_of(&b.sc, base);
    let (x, t) = (circ.fixed_values(), circ.table_values());
    let rounds = if b.sc.kzg { 2 } else { 8 };
    let m = b.prove(0, base);
    b.deliver(10, base, m, Tamper::None);
    for _ in 0..rounds {
        let mut spec = Spec { base: Some(base), ..Default::default() };
        let mut stmt = base;
        // false claims that make up for a violated constraint
        let like = if prop == "C06" && b.p.chance(1, 4) {
            match b.p.below(3) {
                0 if circ.has_perm() => "C04",
                1 if !circ.lookups.is_empty() => "C05",
                _ => "C03",
            }
            .to_string()
        } else {
            prop.clone()
        };
        if like == "C06" {
            spec.forge = claim_forge(&mut b.p);
        } else if like == "C03" && b.p.chance(1, 5) {
            spec.roots = Some(b.p.u64() >> 16);
        } else {
            let mut found = None;
            for _ in 0..12 {
                let (mut o, mut balance) = match like.as_str() {
                    "C03" => match bad_gates(&mut b.p, &circ, &a, &x) {
                        Some(v) => v,
                        None => continue,
                    },
                    "C04" => match bad_copies(&mut b.p, &circ) {
                        Some(v) => (v, false),
                        None => continue,
                    },
                    _ => match bad_lookup(&mut b.p, &circ, &a, &x, &t) {
                        Some(mut v) => {
                            if circ.lookups.len() > 1 && b.p.chance(1, 3) {
                                v.extend(bad_lookup(&mut b.p, &circ, &a, &x, &t).unwrap_or_default());
                            }
                            (v, false)
                        }
                        None => continue,
                    },
                };
                let fill = b.sc.stmts[base].fill;
                if like != "C03" && !circ.gates.is_empty() && b.p.chance(1, 5) {
                    // with the help of a gate that is violated, too
                    let now = circ.fill(fill, &o);
                    let k = if b.p.chance(1, 2) { circ.gates.len() - 1 } else { b.p.below(circ.gates.len()) };
                    if let Some(h) = gate_off_by_one(&mut b.p, &circ, &circ.gates[k], &now, &x) {
                        o.push(h);
                        balance = true;
                    }
                }
                let v = circ.violations(&circ.fill(fill, &o));
                let helped = balance && like != "C03";
                if v.iter().any(|v| is_kind(&like, v)) && (helped || v.iter().all(|v| is_kind(&like, v))) {
                    found = Some((o, v, balance));
                    break;
                }
            }
            let (o, v, balance) = match found {
                Some(f) => f,
                None => continue,
            };
            stmt = b.stmt(c);
            b.sc.stmts[stmt].fill = b.sc.stmts[base].fill;
            b.sc.stmts[stmt].over = o;
            match like.as_str() {
                "C03" if balance => {
                    if circ.has_perm() && (circ.lookups.is_empty() || b.p.chance(2, 3)) {
                        spec.perm = Chain::Zero(Loc::Start);
                    } else if !circ.lookups.is_empty() {
                        spec.lk.push(LkSpec {
                            lookup: b.p.below(circ.lookups.len()),
                            helper: Default::default(),
                            chain: Chain::Zero(Loc::Start),
                        });
                    }
                }
                "C04" if balance => {
                    spec.perm = Chain::Zero(match b.p.below(4) {
                        0 => Loc::Stitch(b.p.below(8)),
                        _ => Loc::Start,
                    });
                }
                "C05" if balance => {
                    spec.lk = lk_specs(&mut b.p, &v, circ.u);
                    for l in spec.lk.iter_mut() {
                        l.chain = Chain::Zero(Loc::Start);
                    }
                }
                "C04" => {
                    spec.perm = chain(&mut b.p, circ.u);
                    if spec.perm == Chain::Plain && !circ.lookups.is_empty() && b.p.chance(1, 2) {
                        spec.lk.push(LkSpec {
                            lookup: 0,
                            helper: Default::default(),
                            chain: Chain::Zero(Loc::Start),
                        });
                    }
                }
                "C05" => {
                    if b.p.chance(9, 10) {
                        spec.lk = lk_specs(&mut b.p, &v, circ.u);
                    }
                    if circ.has_perm() && b.p.chance(1, 8) {
                        spec.perm = Chain::Zero(if b.p.chance(1, 2) { Loc::Start } else { Loc::Stitch(b.p.below(8)) });
                    }
                }
                _ => {}
            }
            if b.p.chance(1, 4) || prop == "C06" {
                spec.forge = Forge::Solve(b.p.below(4096));
            }
        }
        let rng = b.rng();
        let dt = 1 + b.p.below(300) as u64;
        let node = b.p.below(2) as u8;
        b.at(dt, Step::Attack { node, stmt, rng, spec });
    }
    if prop == "C06" {
        for kind in [0u8, 1, 5] {
            let salt = b.p.u64() >> 16;
            let max = if b.sc.kzg { 4 } else { 20 };
            b.at(50, Step::Sweep { node: 10, stmt: base, msg: m, kind, salt, max });
        }
    }
    b.done()
}
