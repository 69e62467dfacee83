//! Probes that compare sessions differing in one thing: the caller's
//! randomness (blinding) or one message (challenges).
use crate::circuit::*;
use crate::model::{Chal, Evals, Model, Slot};
use crate::node::*;
use crate::prng::Prng;
use crate::seam::*;
use crate::tamper::{self, Op, Tamper};
use crate::world::*;
use crate::F;
use ark_ff::{One, Zero};
use ark_poly::EvaluationDomain;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};

/// One proving session outside the bookkeeping of the scenario.
pub fn prove_logged<P: Backend>(
    w: &W<P>,
    node: u8,
    stmt: usize,
    rng: &RngSpec,
    fresh: bool,
    tap: Option<Tap>,
) -> Option<(Outcome<Result<Proof<P>, String>>, Log)> {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let a = w.borrow().assigns[stmt].clone();
    let mut p = take_prover(w, node, circuit).ok()?;
    let r = session(&Plan::default(), vec![], || {
        p.prove(stmt as u64, &a, fresh, rng, tap)
    });
    put_prover(w, node, circuit, p);
    let mut w = w.borrow_mut();
    w.bump("session.prove");
    w.add("seam.crossings", r.1.ops);
    w.add("seam.backend_calls", r.1.pc_calls);
    w.add("seam.random_draws", r.1.rng_draws);
    Some(r)
}

fn comms_of<P: Backend>(p: &mut Proof<P>) -> Vec<(u8, usize, Vec<u8>)> {
    let mut out = vec![];
    for f in 10..16u8 {
        for (i, c) in tamper::comms::<P>(p, f).iter().enumerate() {
            out.push((f, i, encode(c)));
        }
    }
    out
}

fn find<'a>(log: &'a Log, comm: &[u8]) -> Option<&'a CommitRec> {
    log.commits.iter().rev().find(|r| r.comm == comm)
}

fn rows(c: &Circuit, r: &CommitRec) -> Option<Vec<F>> {
    if r.coeffs.len() > c.n() {
        return None;
    }
    Some(c.domain().fft(&r.coeffs))
}

pub fn blinding<P: Backend>(
    w: &W<P>,
    stmt: usize,
    a: &RngSpec,
    b: &RngSpec,
    probes: u32,
    salt: u64,
) {
    let mut prng = Prng::derive(salt, "blinding");
    let fresh = prng.chance(1, 2);
    let node = 0;
    let mut runs = vec![];
    for r in [a, b] {
        match prove_logged(w, node, stmt, r, fresh, None) {
            Some((Outcome::Done(Ok(p)), log)) => runs.push((p, log)),
            _ => {
                w.borrow_mut().bump("skipped.cannot_prove");
                return;
            }
        }
    }
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let u = c.u;
    let n = c.n();
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut rands: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut cells: BTreeMap<String, String> = BTreeMap::new();
    for (k, (p, log)) in runs.iter_mut().enumerate() {
        for (f, i, comm) in comms_of::<P>(p) {
            let name = format!("{}[{}]", tamper::COMMS[f as usize - 10], i);
            let who = format!("proof {} {}", k, name);
            let mut wm = w.borrow_mut();
            wm.judged();
            if let Some(o) = seen.insert(comm.clone(), who.clone()) {
                wm.fail("two commitments are identical", format!("{} and {}", o, who), None);
                return;
            }
            let rec = match find(log, &comm) {
                Some(r) => r,
                None => {
                    wm.bump("skipped.commitment_not_from_backend");
                    continue;
                }
            };
            if rec.hiding.is_none() || !rec.rng_given {
                wm.fail("commitment to secret data is not hiding", name, None);
                return;
            }
            if rec.rand.iter().all(|b| *b == 0) {
                wm.fail("commitment to secret data is not hiding", name, None);
                return;
            }
            if let Some(o) = rands.insert(rec.rand.clone(), who.clone()) {
                wm.fail("blinding randomness is used twice", format!("{} and {}", o, who), None);
                return;
            }
            if rec.draws_after == rec.draws_before {
                wm.fail("blinding does not come from the caller's randomness", name, None);
                return;
            }
            let from = match f {
                11 => u,
                12 | 13 => u + 1,
                _ => n,
            };
            if from >= n {
                continue;
            }
            if let Some(v) = rows(&c, rec) {
                for r in from..n {
                    wm.judged();
                    let who = format!("{} row {}", who, r);
                    if v[r].is_zero() {
                        wm.fail("unused row of a helper column is not random", format!("{} is zero", who), None);
                        return;
                    }
                    let key = format!("{:?}", v[r]);
                    if let Some(o) = cells.insert(key, who.clone()) {
                        wm.fail("unused rows of helper columns repeat", format!("{} and {}", o, who), None);
                        return;
                    }
                }
            }
        }
    }
    w.borrow_mut().event("blinding compared", &encode(&runs[0].0));

    // the same session again, its randomness replaced from some draw on
    let list = comms_of::<P>(&mut runs[0].0);
    let log = &runs[0].1;
    let call_of = |f: u8| -> Option<u64> {
        list.iter()
            .filter(|(g, _, _)| *g == f)
            .filter_map(|(_, _, c)| find(log, c))
            .map(|r| r.call)
            .min()
    };
    let before = |call: u64| -> Option<u64> {
        log.commits
            .iter()
            .filter(|r| r.call < call)
            .max_by_key(|r| r.call)
            .map(|r| r.draws_after)
    };
    for _ in 0..probes {
        let (f, i, comm) = prng.pick(&list).clone();
        let rec = match find(log, &comm) {
            Some(r) => r,
            None => continue,
        };
        let fork = RngSpec { fork: Some(rec.draws_before + 1), ..a.clone() };
        let other = match prove_logged(w, node, stmt, &fork, fresh, None) {
            Some((Outcome::Done(Ok(mut p)), l)) => {
                let cs = comms_of::<P>(&mut p);
                let cm = cs.iter().find(|(g, j, _)| *g == f && *j == i).map(|x| x.2.clone());
                cm.map(|cm| (find(&l, &cm).map(|r| r.coeffs.clone()), cm))
            }
            _ => None,
        };
        let mut wm = w.borrow_mut();
        wm.bump("fault.randomness_forked");
        if let Some((coeffs, cm)) = other {
            wm.judged();
            wm.event("blinding probed", &cm);
            if coeffs.as_ref() == Some(&rec.coeffs) && cm == comm {
                wm.fail(
                    "blinding does not come from the caller's randomness",
                    format!("{}[{}]", tamper::COMMS[f as usize - 10], i),
                    None,
                );
                return;
            }
        }
    }
    // unused rows, forked after the commitments that precede them
    let zs = [call_of(12), call_of(13)].into_iter().flatten().min();
    let groups: Vec<(Vec<u8>, Option<u64>, usize)> = vec![
        (vec![11], call_of(11).and_then(before), u),
        (vec![12, 13], zs.and_then(before), u + 1),
    ];
    for (fs, at, from) in groups {
        let at = match at {
            Some(a) if from < n => a,
            _ => continue,
        };
        let fork = RngSpec { fork: Some(at + 1), ..a.clone() };
        let (mut p2, l2) = match prove_logged(w, node, stmt, &fork, fresh, None) {
            Some((Outcome::Done(Ok(p)), l)) => (p, l),
            _ => continue,
        };
        w.borrow_mut().bump("fault.randomness_forked");
        let new = comms_of::<P>(&mut p2);
        for (f, i, comm) in &list {
            if !fs.contains(f) {
                continue;
            }
            let cm = match new.iter().find(|(g, j, _)| g == f && j == i) {
                Some(x) => &x.2,
                None => continue,
            };
            if let (Some(r1), Some(r2)) = (find(log, comm), find(&l2, cm)) {
                if let (Some(a), Some(b)) = (rows(&c, r1), rows(&c, r2)) {
                    for r in from..n {
                        let mut wm = w.borrow_mut();
                        wm.judged();
                        if a[r] == b[r] {
                            wm.fail(
                                "unused row does not come from the caller's randomness",
                                format!("{}[{}] row {}", tamper::COMMS[*f as usize - 10], i, r),
                                None,
                            );
                            return;
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ transcript

/// First challenge that has to depend on a field of the proof.
fn first_challenge(f: u8) -> usize {
    match f {
        10 => 0,
        11 => 1,
        12 | 13 => 3,
        14 => 4,
        0..=8 => 5,
        15 => 7,
        _ => 8,
    }
}

const NAMES: [&str; 9] = ["theta", "beta", "gamma", "alpha", "xi", "x1", "x2", "x3", "x4"];

pub fn evals_of<P: Backend>(p: &mut Proof<P>) -> Evals {
    (0..9u8).map(|f| tamper::scalars::<P>(p, f).to_vec()).collect()
}

/// The reference model of this circuit, if it explains the honest proof.
pub fn fit_model<P: Backend>(
    c: &Circuit,
    inst: &[Col],
    extended: usize,
    p: &mut Proof<P>,
    ch: &Chal,
    accept: &dyn Fn(&Model, &Evals) -> bool,
) -> Option<Model> {
    let ev = evals_of::<P>(p);
    let nz = tamper::field_len::<P>(p, 13);
    let _ = ch;
    for chunk in Model::chunk_candidates(c.permuted().len(), nz) {
        let m = Model::new(c, inst, extended, nz, chunk);
        if m.shape_ok(&ev) && accept(&m, &ev) {
            return Some(m);
        }
    }
    None
}

pub fn extended<P: Backend>(w: &W<P>, stmt: usize) -> Option<usize> {
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let p = take_prover(w, 0, circuit).ok()?;
    let e = p.extended_size();
    put_prover(w, 0, circuit, p);
    Some(e)
}

struct Vrun {
    ok: bool,
    ch: Vec<F>,
    log: Log,
}

fn vrun<P: Backend>(w: &W<P>, stmt: usize, p: Proof<P>, inst: Option<&[Col]>) -> Option<Vrun> {
    let mut v = take_verifier(w, 0, stmt).ok()?;
    if let Some(i) = inst {
        v.set_instance(i);
    }
    let (o, log) = session(&Plan::default(), vec![], || v.verify(p));
    if inst.is_some() {
        let a = w.borrow().assigns[stmt].clone();
        v.set_instance(&a.i);
    }
    put_verifier(w, 0, stmt, v);
    let mut w = w.borrow_mut();
    w.bump("session.verify");
    w.add("seam.crossings", log.ops);
    Some(Vrun {
        ok: matches!(o, Outcome::Done(Ok(()))),
        ch: log.challenges(),
        log,
    })
}

/// Compares challenges; the ones from `first` on must all differ.
fn must_differ<P: Backend>(
    w: &W<P>,
    what: &str,
    side: &str,
    first: usize,
    honest: &[F],
    got: &[F],
) -> bool {
    let mut w = w.borrow_mut();
    w.bump("fault.message_changed");
    for i in first..honest.len().min(got.len()) {
        w.judged();
        if honest[i] == got[i] {
            let name = NAMES.get(i).copied().unwrap_or("later challenge");
            w.fail(
                "challenge does not depend on an earlier message",
                format!("{} is the same after changing {} ({} side)", name, what, side),
                None,
            );
            return false;
        }
    }
    true
}

pub fn transcript<P: Backend>(w: &W<P>, stmt: usize, rng: &RngSpec, slots: usize, salt: u64) {
    let mut prng = Prng::derive(salt, "transcript");
    let (mut proof, plog) = match prove_logged(w, 0, stmt, rng, false, None) {
        Some((Outcome::Done(Ok(p)), l)) => (p, l),
        _ => {
            w.borrow_mut().bump("skipped.cannot_prove");
            return;
        }
    };
    let chp = plog.challenges();
    let bytes = encode(&proof);
    let again = || decode::<P>(&bytes).ok();
    let honest = match again().and_then(|p| vrun(w, stmt, p, None)) {
        Some(v) => v,
        None => return,
    };
    let circuit = w.borrow().sc.stmts[stmt].circuit;
    let c = w.borrow().circuits[circuit].clone();
    let a = w.borrow().assigns[stmt].clone();
    {
        let mut w = w.borrow_mut();
        w.event("transcript", &bytes);
        w.judged();
        let m = chp.len().min(honest.ch.len());
        if let Some(i) = (0..m).find(|&i| chp[i] != honest.ch[i]) {
            w.fail(
                "prover and verifier derive different challenges",
                NAMES.get(i).copied().unwrap_or("later").to_string(),
                None,
            );
            return;
        }
        if !honest.ok {
            w.bump("skipped.cannot_verify");
            return;
        }
        if chp.len() < 9 || honest.ch.len() < 9 {
            w.fail(
                "fewer challenges than the protocol needs",
                format!("{} derived by the prover, {} by the verifier", chp.len(), honest.ch.len()),
                None,
            );
            return;
        }
        for i in 0..honest.ch.len() {
            for j in 0..i {
                if honest.ch[i] == honest.ch[j] {
                    w.fail(
                        "two challenges are equal",
                        format!("{} and {}", NAMES.get(j).unwrap_or(&"?"), NAMES.get(i).unwrap_or(&"?")),
                        None,
                    );
                    return;
                }
            }
        }
    }
    for _ in 0..4 {
        let bad = transcript_streams(&plog.fs, &mut prng);
        let mut w = w.borrow_mut();
        w.judged();
        if let Some(d) = bad {
            w.fail("challenge source is not bound to its messages", d, None);
            return;
        }
    }
    let ch = match Chal::from(&honest.ch) {
        Some(c) => c,
        None => return,
    };
    let ext = match extended(w, stmt) {
        Some(e) => e,
        None => return,
    };
    // does the accepted proof make sense with these challenges, or only with
    // one of them standing in for another?
    let q: Vec<F> = tamper::scalars::<P>(&mut proof, 9).to_vec();
    let fin = honest.log.checked.last().and_then(|(_, v)| v.first().cloned());
    let model = fit_model::<P>(&c, &a.i, ext, &mut proof, &ch, &|m, e| m.residual(e, &ch).is_zero());
    if model.is_none() {
        w.borrow_mut().bump("model.does_not_explain_proof");
        'pairs: for i in 0..9 {
            for j in 0..9 {
                if i == j {
                    continue;
                }
                let mut alt = honest.ch.clone();
                alt[j] = alt[i];
                let alt = Chal::from(&alt).unwrap();
                let m = fit_model::<P>(&c, &a.i, ext, &mut proof, &alt, &|m, e| m.residual(e, &alt).is_zero());
                if m.is_some() {
                    let mut w = w.borrow_mut();
                    w.judged();
                    w.fail(
                        "one challenge is used in place of another",
                        format!("{} in place of {}", NAMES[i], NAMES[j]),
                        None,
                    );
                    break 'pairs;
                }
            }
        }
        if w.borrow().rep.found.is_some() {
            return;
        }
    }
    if let (Some(m), Some(fin)) = (&model, fin) {
        let ev = evals_of::<P>(&mut proof);
        w.borrow_mut().judged();
        if m.final_eval(&ev, &q, &ch) == Some(fin) {
            w.borrow_mut().bump("model.explains_proof");
        } else {
            w.borrow_mut().bump("model.does_not_explain_opening");
            for i in 0..9 {
                for j in 5..9 {
                    if i == j {
                        continue;
                    }
                    let mut alt = honest.ch.clone();
                    alt[j] = alt[i];
                    let alt = Chal::from(&alt).unwrap();
                    if m.final_eval(&ev, &q, &alt) == Some(fin) {
                        let mut w = w.borrow_mut();
                        w.fail(
                            "one challenge is used in place of another",
                            format!("{} in place of {}", NAMES[i], NAMES[j]),
                            None,
                        );
                        return;
                    }
                }
            }
        }
    }

    // verifier side
    let mut targets: Vec<(u8, usize)> = vec![];
    for f in 9..16u8 {
        for i in 0..tamper::field_len::<P>(&mut proof, f) {
            targets.push((f, i));
        }
    }
    prng.shuffle(&mut targets);
    for &(f, i) in targets.iter().take(slots) {
        let op = match prng.below(3) {
            0 => Op::Neg,
            1 => Op::Scale(2),
            _ => Op::Add(Fv(F::one())),
        };
        let t = Tamper::Set { field: f, idx: i, op };
        let b2 = tamper::apply::<P>(&bytes, &t, &|_| None);
        if b2 == bytes {
            continue;
        }
        let p2 = match decode::<P>(&b2) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let v = match vrun(w, stmt, p2, None) {
            Some(v) => v,
            None => continue,
        };
        let name = if f < 10 { tamper::SCALARS[f as usize] } else { tamper::COMMS[f as usize - 10] };
        if !must_differ(w, &format!("{}[{}]", name, i), "verifier", first_challenge(f), &honest.ch, &v.ch) {
            return;
        }
    }
    // public inputs: one cell anywhere, a cell unused by the gates, two swapped
    for col in 0..a.i.len() {
        for _ in 0..2 {
            let mut inst = a.i.clone();
            let r = prng.below(c.n());
            match prng.below(3) {
                0 if a.i.len() > 1 => {
                    let o = (col + 1) % a.i.len();
                    inst.swap(col, o);
                }
                1 => inst[col].rotate_left(1),
                _ => inst[col][r] += prng.nonzero(),
            }
            if inst == a.i {
                continue;
            }
            let p2 = match again() {
                Some(p) => p,
                None => break,
            };
            if let Some(v) = vrun(w, stmt, p2, Some(&inst)) {
                if !must_differ(w, &format!("public inputs, column {}", col), "verifier", 0, &honest.ch, &v.ch) {
                    return;
                }
            }
        }
    }
    // claims: two changed so that the constraint still balances
    if let Some(m) = &model {
        let ev = evals_of::<P>(&mut proof);
        let mut sl: Vec<Slot> = m.slots();
        prng.shuffle(&mut sl);
        let mut done = 0;
        for &s in sl.iter() {
            if done >= slots {
                break;
            }
            let mut e2 = ev.clone();
            e2[s.0 as usize][s.1] += F::one();
            // another slot to compensate with
            let mut sol = None;
            if !m.residual(&e2, &ch).is_zero() {
                for _ in 0..6 {
                    let t = *prng.pick(&sl);
                    if t == s {
                        continue;
                    }
                    if let Some(d) = m.solve(&e2, &ch, t) {
                        sol = Some((t, d));
                        break;
                    }
                }
                match sol {
                    Some((t, d)) => e2[t.0 as usize][t.1] += d,
                    None => continue,
                }
            }
            done += 1;
            let mut p2 = match again() {
                Some(p) => p,
                None => break,
            };
            for f in 0..9u8 {
                tamper::scalars::<P>(&mut p2, f).copy_from_slice(&e2[f as usize]);
            }
            if let Some(v) = vrun(w, stmt, p2, None) {
                w.borrow_mut().bump("fault.balanced_claims");
                let what = format!("{}[{}]", tamper::SCALARS[s.0 as usize], s.1);
                if !must_differ(w, &what, "verifier", 5, &honest.ch, &v.ch) {
                    return;
                }
            }
        }
    }
    // prover side: a claim changed before it is sent
    let ev = evals_of::<P>(&mut proof);
    let mut claims: Vec<(u8, usize)> = vec![];
    for f in 0..9u8 {
        for i in 0..ev[f as usize].len() {
            claims.push((f, i));
        }
    }
    prng.shuffle(&mut claims);
    for &(f, i) in claims.iter().take((slots + 1) / 2) {
        let tap: Tap = Box::new(move |site, v| {
            if site == "evals" {
                with_evals(v, &mut |e| e(f)[i] += F::one());
            }
        });
        if let Some((Outcome::Done(Ok(_)), l)) = prove_logged(w, 0, stmt, rng, false, Some(tap)) {
            let got = l.challenges();
            if got == chp {
                // taps are not compiled in
                w.borrow_mut().bump("skipped.no_taps");
                if !cfg!(zok_sim_taps) {
                    break;
                }
            }
            let what = format!("{}[{}]", tamper::SCALARS[f as usize], i);
            if !must_differ(w, &what, "prover", 5, &chp, &got) {
                return;
            }
        }
    }
}

pub type EvalTuple = (Vec<F>, Vec<F>, Vec<F>, Vec<F>, F, Vec<F>, Vec<F>, Vec<F>, Vec<F>);

/// Access to the claimed values at the "evals" tap by field number.
pub fn with_evals(
    v: &mut [&mut dyn Any],
    f: &mut dyn FnMut(&mut dyn FnMut(u8) -> &'static mut [F]),
) {
    if let Some(t) = v[0].downcast_mut::<EvalTuple>() {
        let t: *mut EvalTuple = t;
        let mut get = |k: u8| -> &'static mut [F] {
            // the references do not outlive the tap
            let t = unsafe { &mut *t };
            match k {
                0 => &mut t.0,
                1 => &mut t.1,
                2 => &mut t.2,
                3 => &mut t.3,
                4 => std::slice::from_mut(&mut t.4),
                5 => &mut t.5,
                6 => &mut t.6,
                7 => &mut t.7,
                _ => &mut t.8,
            }
        };
        f(&mut get);
    }
}

#[allow(dead_code)]
fn _unused(_: BTreeSet<u8>) {}
