//! Minimises a failing scenario: fewer steps, simpler faults, smaller circuits,
//! as long as the same class of violation shows.
use crate::circuit::*;
use crate::tamper::Tamper;
use crate::world::*;
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub scenario: Scenario,
    pub found: Found,
    pub tried: u64,
}

pub fn shrink(
    sc: &Scenario,
    found: &Found,
    budget: Duration,
    test: &mut dyn FnMut(&Scenario) -> Option<Found>,
) -> Shrunk {
    let end = Instant::now() + budget;
    let mut best = sc.clone();
    let mut f = found.clone();
    let mut tried = 0;
    let mut attempt = |cand: Scenario, best: &mut Scenario, f: &mut Found| -> bool {
        if cand == *best || Instant::now() > end {
            return false;
        }
        tried += 1;
        match test(&cand) {
            Some(g) if g.class == f.class => {
                *best = cand;
                *f = g;
                true
            }
            _ => false,
        }
    };
    // nothing after the failing step matters
    let mut c = best.clone();
    c.steps.truncate(f.step + 1);
    attempt(c, &mut best, &mut f);
    if let Some(s) = f.instead.clone() {
        let mut c = best.clone();
        if let Some(l) = c.steps.get_mut(f.step) {
            l.step = s;
            attempt(c, &mut best, &mut f);
        }
    }
    loop {
        let before = best.clone();
        // blocks of steps, then single steps
        let mut size = best.steps.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.steps.len() {
                let mut c = best.clone();
                let j = (i + size).min(c.steps.len());
                c.steps.drain(i..j);
                if !attempt(c, &mut best, &mut f) {
                    i += size;
                }
            }
            size /= 2;
        }
        for i in 0..best.steps.len() {
            for s in simpler(&best.steps[i].step) {
                let mut c = best.clone();
                c.steps[i].step = s;
                attempt(c, &mut best, &mut f);
            }
        }
        // what the parties of a fold do
        for i in 0..best.steps.len() {
            let mut size = match &best.steps[i].step {
                Step::Fold { ops, .. } => (ops.len() + 1) / 2,
                Step::Opens { ops, .. } => (ops.len() + 1) / 2,
                _ => 0,
            };
            while size >= 1 {
                let mut at = 0;
                loop {
                    let mut c = best.clone();
                    match &mut c.steps[i].step {
                        Step::Fold { ops, .. } if at < ops.len() => {
                            let end = (at + size).min(ops.len());
                            ops.drain(at..end);
                        }
                        Step::Opens { ops, .. } if at < ops.len() => {
                            let end = (at + size).min(ops.len());
                            ops.drain(at..end);
                        }
                        _ => break,
                    }
                    if !attempt(c, &mut best, &mut f) {
                        at += size;
                    }
                }
                size /= 2;
            }
            let cols = match &best.steps[i].step {
                Step::Opens { cols, .. } => cols.len(),
                _ => 0,
            };
            for k in (0..cols).rev() {
                let mut c = best.clone();
                if let Step::Opens { cols, .. } = &mut c.steps[i].step {
                    // later ones are not renamed: only from the end
                    if k + 1 == cols.len() {
                        cols.pop();
                    } else {
                        cols[k].kind = 1;
                    }
                }
                attempt(c, &mut best, &mut f);
            }
            let mut op = 0;
            loop {
                let n = match &best.steps[i].step {
                    Step::Fold { ops, .. } if op < ops.len() => match &ops[op] {
                        crate::fold::Op::Batch { parties, .. } => parties.len(),
                        _ => 0,
                    },
                    _ => break,
                };
                for k in (0..n).rev() {
                    let mut c = best.clone();
                    if let Step::Fold { ops, .. } = &mut c.steps[i].step {
                        if let crate::fold::Op::Batch { parties, .. } = &mut ops[op] {
                            parties.remove(k);
                        }
                    }
                    attempt(c, &mut best, &mut f);
                }
                op += 1;
            }
        }
        // statements
        for i in 0..best.stmts.len() {
            for k in (0..best.stmts[i].over.len()).rev() {
                let mut c = best.clone();
                c.stmts[i].over.remove(k);
                attempt(c, &mut best, &mut f);
            }
        }
        if best.prop != "C10" {
            for i in 0..best.circuits.len() {
                for s in smaller(&best.circuits[i]) {
                    let mut c = best.clone();
                    c.circuits[i] = s;
                    // the list was made from an older state: only ever shrink
                    if weight(&c.circuits[i]) < weight(&best.circuits[i]) {
                        attempt(c, &mut best, &mut f);
                    }
                }
            }
        }
        if best == before || Instant::now() > end {
            break;
        }
    }
    Shrunk { scenario: best, found: f, tried }
}

fn simpler(s: &Step) -> Vec<Step> {
    let mut v = vec![];
    match s {
        Step::Nested { outer, inner, .. } => {
            v.push((**outer).clone());
            v.push((**inner).clone());
        }
        Step::Threads { seed, den, jobs } => {
            for i in 0..jobs.len() {
                if jobs.len() > 1 {
                    let mut j = jobs.clone();
                    j.remove(i);
                    v.push(Step::Threads { seed: *seed, den: *den, jobs: j });
                }
            }
        }
        Step::Deliver { node, stmt, msg, tamper, plan } => {
            if *tamper != Tamper::None {
                v.push(Step::Deliver {
                    node: *node,
                    stmt: *stmt,
                    msg: *msg,
                    tamper: Tamper::None,
                    plan: plan.clone(),
                });
            }
            if plan.crash_at.is_some() || plan.pc_fault.is_some() {
                v.push(Step::Deliver {
                    node: *node,
                    stmt: *stmt,
                    msg: *msg,
                    tamper: tamper.clone(),
                    plan: Default::default(),
                });
            }
        }
        Step::Prove { node, stmt, rng, fresh, plan, msg } => {
            if plan.crash_at.is_some() || plan.pc_fault.is_some() {
                v.push(Step::Prove {
                    node: *node,
                    stmt: *stmt,
                    rng: rng.clone(),
                    fresh: *fresh,
                    plan: Default::default(),
                    msg: *msg,
                });
            }
            if rng.kind != 0 {
                let mut r = rng.clone();
                r.kind = 0;
                v.push(Step::Prove {
                    node: *node,
                    stmt: *stmt,
                    rng: r,
                    fresh: *fresh,
                    plan: plan.clone(),
                    msg: *msg,
                });
            }
        }
        Step::Formulas { names, forms, seed } if forms.len() == 1 => {
            let parts: Vec<&Ex> = match &forms[0] {
                Ex::Neg(a) | Ex::Scale(a, _) => vec![a],
                Ex::Add(a, b) | Ex::Sub(a, b) | Ex::Mul(a, b) => vec![a, b],
                _ => vec![],
            };
            let mut ch: Vec<Ex> = parts.into_iter().cloned().collect();
            // or a leaf in place of a part
            let leaf = Ex::C(3);
            match &forms[0] {
                Ex::Neg(a) => match &**a {
                    Ex::Add(x, y) => {
                        ch.push(Ex::Neg(Box::new(Ex::Add(x.clone(), Box::new(leaf.clone())))));
                        ch.push(Ex::Neg(Box::new(Ex::Add(Box::new(leaf), y.clone()))));
                    }
                    _ => {}
                },
                Ex::Add(a, b) => {
                    ch.push(Ex::Add(a.clone(), Box::new(leaf.clone())));
                    ch.push(Ex::Add(Box::new(leaf), b.clone()));
                }
                Ex::Sub(a, b) => {
                    ch.push(Ex::Sub(a.clone(), Box::new(leaf.clone())));
                    ch.push(Ex::Sub(Box::new(leaf), b.clone()));
                }
                Ex::Mul(a, b) => {
                    ch.push(Ex::Mul(a.clone(), Box::new(leaf.clone())));
                    ch.push(Ex::Mul(Box::new(leaf), b.clone()));
                }
                _ => {}
            }
            for e in ch {
                if e != forms[0] {
                    v.push(Step::Formulas { names: names.clone(), forms: vec![e], seed: *seed });
                }
            }
        }
        Step::Io { node, stmt, msgs, write, read, uncompressed } => {
            let mk = |msgs: Vec<u32>, w: &crate::io::Io, r: &crate::io::Io| Step::Io {
                node: *node,
                stmt: *stmt,
                msgs,
                write: w.clone(),
                read: r.clone(),
                uncompressed: *uncompressed,
            };
            if msgs.len() > 1 {
                v.push(mk(vec![msgs[0]], write, read));
            }
            let mut w = write.clone();
            w.fail_at = None;
            w.interrupt = 0;
            w.max_chunk = 0;
            v.push(mk(msgs.clone(), &w, read));
            let mut r = read.clone();
            r.fail_at = None;
            r.interrupt = 0;
            r.max_chunk = 0;
            v.push(mk(msgs.clone(), write, &r));
        }
        _ => {}
    }
    v
}

fn weight(c: &Circuit) -> usize {
    10 * (c.gates.len() + c.lookups.len())
        + 3 * c.copies.len()
        + c.removed.len()
        + (c.warm > 0) as usize
}

fn smaller(c: &Circuit) -> Vec<Circuit> {
    let mut v = vec![];
    for i in (0..c.gates.len()).rev() {
        let mut d = c.clone();
        d.gates.remove(i);
        d.order = d
            .order
            .into_iter()
            .filter_map(|u| match u {
                Unit::Gate(g) if g == i => None,
                Unit::Gate(g) if g > i => Some(Unit::Gate(g - 1)),
                u => Some(u),
            })
            .collect();
        v.push(d);
    }
    for i in (0..c.lookups.len()).rev() {
        let mut d = c.clone();
        d.lookups.remove(i);
        d.order = d
            .order
            .into_iter()
            .filter_map(|u| match u {
                Unit::Lookup(g) if g == i => None,
                Unit::Lookup(g) if g > i => Some(Unit::Lookup(g - 1)),
                u => Some(u),
            })
            .collect();
        v.push(d);
    }
    if !c.copies.is_empty() {
        let mut d = c.clone();
        d.copies.clear();
        v.push(d);
        for i in (0..c.copies.len()).rev().take(20) {
            let mut d = c.clone();
            d.copies.remove(i);
            v.push(d);
        }
    }
    if c.warm > 0 {
        let mut d = c.clone();
        d.warm = 0;
        v.push(d);
    }
    if !c.removed.is_empty() {
        let mut d = c.clone();
        d.removed.retain(|&r| r > d.u);
        v.push(d);
    }
    v
}
