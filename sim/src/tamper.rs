//! What the network, or somebody on it, can do to a proof in transit.
use crate::circuit::{val, Fv};
use crate::node::{decode, encode, Backend, Comm, Proof};
use crate::prng::Prng;
use crate::seam::SimPc;
use crate::F;
use ark_ff::Zero;
use serde::{Deserialize, Serialize};
use zero_over_k::commitment::HomomorphicCommitment;

pub const SCALARS: [&str; 10] = [
    "witness_evals",
    "fixed_oracle_evals",
    "table_oracle_evals",
    "permutation_oracle_evals",
    "q_blind_eval",
    "lookup_evals",
    "lookup_z_evals",
    "z_evals",
    "quotient_chunks_evals",
    "q_evals",
];
pub const COMMS: [&str; 6] = [
    "witness_commitments",
    "lookup_commitments",
    "lookup_z_commitments",
    "z_commitments",
    "quotient_chunk_commitments",
    "f_commit",
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Add(Fv),
    Zero,
    Neg,
    Scale(u64),
    /// copy of another slot of the same proof
    From(u8, usize),
    /// the same slot of another message
    Of(u32),
}

/// Field numbers count scalars first (0..10), then commitments (10..16).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tamper {
    None,
    Set { field: u8, idx: usize, op: Op },
    Swap { a: (u8, usize), b: (u8, usize) },
    Drop { field: u8, idx: usize },
    Dup { field: u8, idx: usize },
    Clear { field: u8 },
    Push { field: u8, val: u64 },
    /// takes an element out of one list and appends it to another
    Move { from: u8, idx: usize, to: u8 },
    Rotate { field: u8 },
    /// a whole list from another message
    Splice { field: u8, msg: u32 },
    Opening { msg: u32 },
    OpeningBits { how: u8 },
    FlipBit { bit: u64 },
    SetByte { at: u64, val: u8 },
    Cut { len: u64 },
    CutTail { n: u64 },
    Excise { at: u64, n: u64 },
    Insert { at: u64, n: u64, val: u8 },
    Append { n: u64, val: u8 },
    /// overwrites the length prefix of the n-th list
    Len { nth: u8, val: u64 },
    Garbage { seed: u64, len: u64 },
    /// another message's bytes from this offset on
    Tail { at: u64, msg: u32 },
    Both(Box<Tamper>, Box<Tamper>),
}

pub fn scalars<P: Backend>(p: &mut Proof<P>, f: u8) -> &mut [F] {
    match f {
        0 => &mut p.witness_evals,
        1 => &mut p.fixed_oracle_evals,
        2 => &mut p.table_oracle_evals,
        3 => &mut p.permutation_oracle_evals,
        4 => std::slice::from_mut(&mut p.q_blind_eval),
        5 => &mut p.lookup_evals,
        6 => &mut p.lookup_z_evals,
        7 => &mut p.z_evals,
        8 => &mut p.quotient_chunks_evals,
        _ => &mut p.multiopen_proof.q_evals,
    }
}
fn scalar_vec<P: Backend>(p: &mut Proof<P>, f: u8) -> Option<&mut Vec<F>> {
    Some(match f {
        0 => &mut p.witness_evals,
        1 => &mut p.fixed_oracle_evals,
        2 => &mut p.table_oracle_evals,
        3 => &mut p.permutation_oracle_evals,
        5 => &mut p.lookup_evals,
        6 => &mut p.lookup_z_evals,
        7 => &mut p.z_evals,
        8 => &mut p.quotient_chunks_evals,
        9 => &mut p.multiopen_proof.q_evals,
        _ => return None,
    })
}
pub fn comms<P: Backend>(p: &mut Proof<P>, f: u8) -> &mut [Comm<P>] {
    match f {
        10 => &mut p.witness_commitments,
        11 => &mut p.lookup_commitments,
        12 => &mut p.lookup_z_commitments,
        13 => &mut p.z_commitments,
        14 => &mut p.quotient_chunk_commitments,
        _ => std::slice::from_mut(&mut p.multiopen_proof.f_commit),
    }
}
fn comm_vec<P: Backend>(p: &mut Proof<P>, f: u8) -> Option<&mut Vec<Comm<P>>> {
    Some(match f {
        10 => &mut p.witness_commitments,
        11 => &mut p.lookup_commitments,
        12 => &mut p.lookup_z_commitments,
        13 => &mut p.z_commitments,
        14 => &mut p.quotient_chunk_commitments,
        _ => return None,
    })
}
pub fn field_len<P: Backend>(p: &mut Proof<P>, f: u8) -> usize {
    if f < 10 {
        scalars::<P>(p, f).len()
    } else {
        comms::<P>(p, f).len()
    }
}

/// Number of elements of each of the 16 fields.
pub fn shape<P: Backend>(p: &mut Proof<P>) -> Vec<usize> {
    (0..16).map(|f| field_len::<P>(p, f)).collect()
}

/// Byte offset of the n-th list's length prefix in an encoded proof.
pub fn prefix_offset(shape: &[usize], comm: usize, nth: u8) -> u64 {
    // encoding order: the struct's field order
    let order: [(u8, bool); 15] = [
        (10, true),
        (0, true),
        (1, true),
        (2, true),
        (3, true),
        (4, false),
        (11, true),
        (12, true),
        (5, true),
        (6, true),
        (13, true),
        (7, true),
        (14, true),
        (8, true),
        (9, true),
    ];
    let mut at = 0u64;
    let mut k = 0;
    for (f, list) in order {
        if list {
            if k == nth {
                return at;
            }
            k += 1;
            at += 8;
        }
        let el = if f < 10 { 32 } else { comm };
        at += (el * shape[f as usize]) as u64;
    }
    at
}

fn apply_proof<P: Backend>(
    p: &mut Proof<P>,
    t: &Tamper,
    other: &dyn Fn(u32) -> Option<Proof<P>>,
) {
    match t {
        Tamper::Set { field, idx, op } => {
            let n = field_len::<P>(p, *field);
            if n == 0 {
                return;
            }
            let i = idx % n;
            if *field < 10 {
                let old = scalars::<P>(p, *field)[i];
                let new = match op {
                    Op::Add(d) => old + d.0,
                    Op::Zero => F::zero(),
                    Op::Neg => -old,
                    Op::Scale(c) => old * val(*c),
                    Op::From(f2, j) => {
                        let f2 = f2 % 10;
                        let m = field_len::<P>(p, f2);
                        if m == 0 {
                            return;
                        }
                        scalars::<P>(p, f2)[j % m]
                    }
                    Op::Of(m) => match other(*m) {
                        Some(mut o) => {
                            let s = scalars::<P>(&mut o, *field);
                            match s.get(i) {
                                Some(v) => *v,
                                None => return,
                            }
                        }
                        None => return,
                    },
                };
                scalars::<P>(p, *field)[i] = new;
            } else {
                let old = comms::<P>(p, *field)[i].clone();
                let new = match op {
                    Op::Add(d) => SimPc::<P>::add(
                        &old,
                        &SimPc::<P>::scale_com(&old, d.0),
                    ),
                    Op::Zero => SimPc::<P>::zero_comm(),
                    Op::Neg => SimPc::<P>::neg_com(&old),
                    Op::Scale(c) => SimPc::<P>::scale_com(&old, val(*c)),
                    Op::From(f2, j) => {
                        let f2 = 10 + f2 % 6;
                        let m = field_len::<P>(p, f2);
                        if m == 0 {
                            return;
                        }
                        comms::<P>(p, f2)[j % m].clone()
                    }
                    Op::Of(m) => match other(*m) {
                        Some(mut o) => {
                            match comms::<P>(&mut o, *field).get(i) {
                                Some(v) => v.clone(),
                                None => return,
                            }
                        }
                        None => return,
                    },
                };
                comms::<P>(p, *field)[i] = new;
            }
        }
        Tamper::Swap { a, b } => {
            let (na, nb) = (field_len::<P>(p, a.0), field_len::<P>(p, b.0));
            if na == 0 || nb == 0 || (a.0 < 10) != (b.0 < 10) {
                return;
            }
            let (i, j) = (a.1 % na, b.1 % nb);
            if a.0 < 10 {
                let x = scalars::<P>(p, a.0)[i];
                let y = scalars::<P>(p, b.0)[j];
                scalars::<P>(p, a.0)[i] = y;
                scalars::<P>(p, b.0)[j] = x;
            } else {
                let x = comms::<P>(p, a.0)[i].clone();
                let y = comms::<P>(p, b.0)[j].clone();
                comms::<P>(p, a.0)[i] = y;
                comms::<P>(p, b.0)[j] = x;
            }
        }
        Tamper::Drop { field, idx } => {
            if let Some(v) = scalar_vec::<P>(p, *field) {
                if !v.is_empty() {
                    v.remove(idx % v.len());
                }
            } else if let Some(v) = comm_vec::<P>(p, *field) {
                if !v.is_empty() {
                    v.remove(idx % v.len());
                }
            }
        }
        Tamper::Dup { field, idx } => {
            if let Some(v) = scalar_vec::<P>(p, *field) {
                if !v.is_empty() {
                    let x = v[idx % v.len()];
                    v.insert(idx % v.len(), x);
                }
            } else if let Some(v) = comm_vec::<P>(p, *field) {
                if !v.is_empty() {
                    let x = v[idx % v.len()].clone();
                    v.insert(idx % v.len(), x);
                }
            }
        }
        Tamper::Clear { field } => {
            if let Some(v) = scalar_vec::<P>(p, *field) {
                v.clear()
            } else if let Some(v) = comm_vec::<P>(p, *field) {
                v.clear()
            }
        }
        Tamper::Push { field, val: c } => {
            let fc = p.multiopen_proof.f_commit.clone();
            if let Some(v) = scalar_vec::<P>(p, *field) {
                v.push(val(*c))
            } else if let Some(v) = comm_vec::<P>(p, *field) {
                v.push(if *c == 0 { SimPc::<P>::zero_comm() } else { fc })
            }
        }
        Tamper::Move { from, idx, to } => {
            if (*from < 10) != (*to < 10) {
                return;
            }
            if *from < 10 {
                if scalar_vec::<P>(p, *to).is_none() {
                    return;
                }
                let x = match scalar_vec::<P>(p, *from) {
                    Some(v) if !v.is_empty() => v.remove(idx % v.len()),
                    _ => return,
                };
                scalar_vec::<P>(p, *to).unwrap().push(x);
            } else {
                if comm_vec::<P>(p, *to).is_none() {
                    return;
                }
                let x = match comm_vec::<P>(p, *from) {
                    Some(v) if !v.is_empty() => v.remove(idx % v.len()),
                    _ => return,
                };
                comm_vec::<P>(p, *to).unwrap().push(x);
            }
        }
        Tamper::Rotate { field } => {
            if let Some(v) = scalar_vec::<P>(p, *field) {
                if !v.is_empty() {
                    v.rotate_left(1)
                }
            } else if let Some(v) = comm_vec::<P>(p, *field) {
                if !v.is_empty() {
                    v.rotate_left(1)
                }
            }
        }
        Tamper::Splice { field, msg } => {
            if let Some(mut o) = other(*msg) {
                if *field == 4 {
                    p.q_blind_eval = o.q_blind_eval
                } else if *field == 15 {
                    p.multiopen_proof.f_commit = o.multiopen_proof.f_commit
                } else if *field < 10 {
                    *scalar_vec::<P>(p, *field).unwrap() =
                        scalar_vec::<P>(&mut o, *field).unwrap().clone()
                } else {
                    *comm_vec::<P>(p, *field).unwrap() =
                        comm_vec::<P>(&mut o, *field).unwrap().clone()
                }
            }
        }
        Tamper::Opening { msg } => {
            if let Some(o) = other(*msg) {
                p.multiopen_proof.opening_proof =
                    o.multiopen_proof.opening_proof
            }
        }
        Tamper::OpeningBits { how } => {
            P::tamper_opening(&mut p.multiopen_proof.opening_proof, *how)
        }
        _ => {}
    }
}

/// Applies to an encoded proof. Manipulations of the parsed proof need it to
/// be decodable; if it is not, the bytes stay as they are.
pub fn apply<P: Backend>(
    bytes: &[u8],
    t: &Tamper,
    get: &dyn Fn(u32) -> Option<Vec<u8>>,
) -> Vec<u8> {
    let mut b = bytes.to_vec();
    let n = b.len() as u64;
    if n == 0 {
        return b;
    }
    match t {
        Tamper::None => {}
        Tamper::Both(x, y) => {
            b = apply::<P>(&b, x, get);
            b = apply::<P>(&b, y, get);
        }
        Tamper::FlipBit { bit } => {
            let k = bit % (8 * n);
            b[(k / 8) as usize] ^= 1 << (k % 8)
        }
        Tamper::SetByte { at, val } => b[(at % n) as usize] = *val,
        Tamper::Cut { len } => b.truncate((len % n) as usize),
        Tamper::CutTail { n: k } => b.truncate((n - k.min(&n)) as usize),
        Tamper::Excise { at, n: k } => {
            let a = at % n;
            let e = (a + k).min(n);
            b.drain(a as usize..e as usize);
        }
        Tamper::Insert { at, n: k, val } => {
            let a = (at % n) as usize;
            b.splice(a..a, std::iter::repeat(*val).take(*k as usize));
        }
        Tamper::Append { n: k, val } => {
            b.extend(std::iter::repeat(*val).take(*k as usize))
        }
        Tamper::Len { nth, val } => {
            if let Ok(mut p) = decode::<P>(&b) {
                let c = encode(&p.multiopen_proof.f_commit).len();
                let s = shape::<P>(&mut p);
                let at = prefix_offset(&s, c, *nth % 14) as usize;
                if at + 8 <= b.len() {
                    b[at..at + 8].copy_from_slice(&val.to_le_bytes());
                }
            }
        }
        Tamper::Garbage { seed, len } => {
            let mut p = Prng::derive(*seed, "garbage");
            b = (0..*len).map(|_| p.u64() as u8).collect();
        }
        Tamper::Tail { at, msg } => {
            if let Some(o) = get(*msg) {
                let a = (at % n) as usize;
                b.truncate(a);
                if o.len() > a {
                    b.extend_from_slice(&o[a..]);
                }
            }
        }
        _ => {
            if let Ok(mut p) = decode::<P>(&b) {
                apply_proof::<P>(&mut p, t, &|m| {
                    get(m).and_then(|b| decode::<P>(&b).ok())
                });
                b = encode(&p);
            }
        }
    }
    b
}

/// Structural damage: the lists no longer have the right lengths.
pub fn structural(before: &[usize], after: &[usize]) -> bool {
    before != after
}

/// Every single-slot change of a proof of this shape.
pub fn systematic(shape: &[usize], p: &mut Prng) -> Vec<Tamper> {
    let mut out = vec![];
    for f in 0..16u8 {
        for idx in 0..shape[f as usize] {
            let op = match p.below(6) {
                0 => Op::Zero,
                1 => Op::Neg,
                2 => Op::Scale(2 + p.below(3) as u64),
                3 => Op::From(p.below(10) as u8, p.below(64)),
                _ => Op::Add(Fv(if p.chance(1, 2) {
                    crate::prng::f(1 + p.below(3) as u64)
                } else {
                    p.nonzero()
                })),
            };
            out.push(Tamper::Set { field: f, idx, op });
        }
    }
    // neighbours exchanged
    for f in 0..16u8 {
        for idx in 1..shape[f as usize] {
            out.push(Tamper::Swap {
                a: (f, idx - 1),
                b: (f, idx),
            });
        }
    }
    for how in 0..7 {
        out.push(Tamper::OpeningBits { how });
    }
    out
}

/// Every way to give one list the wrong number of elements.
pub fn systematic_structure(shape: &[usize], p: &mut Prng) -> Vec<Tamper> {
    let mut out = vec![];
    for f in 0..15u8 {
        if f == 4 {
            continue;
        }
        let n = shape[f as usize];
        for idx in 0..n {
            out.push(Tamper::Drop { field: f, idx });
        }
        if n > 0 {
            out.push(Tamper::Clear { field: f });
            out.push(Tamper::Dup { field: f, idx: p.below(n) });
            let other: Vec<u8> = (0..15u8)
                .filter(|&g| g != 4 && g != f && (g < 10) == (f < 10))
                .collect();
            out.push(Tamper::Move {
                from: f,
                idx: p.below(n),
                to: *p.pick(&other),
            });
            if n > 1 {
                out.push(Tamper::Both(
                    Box::new(Tamper::Drop { field: f, idx: 0 }),
                    Box::new(Tamper::Drop { field: f, idx: 0 }),
                ));
            }
        }
        out.push(Tamper::Push { field: f, val: 0 });
        out.push(Tamper::Push { field: f, val: 7 });
    }
    out
}

/// A random change.
pub fn random(p: &mut Prng, msgs: &[u32]) -> Tamper {
    let m = if msgs.is_empty() { 0 } else { *p.pick(msgs) };
    let field = p.below(16) as u8;
    let idx = p.below(1 << 16);
    match p.below(24) {
        0 | 1 => Tamper::FlipBit { bit: p.u64() >> 1 },
        2 => Tamper::SetByte { at: p.u64() >> 1, val: p.u64() as u8 },
        3 => Tamper::Cut { len: p.u64() >> 1 },
        4 => Tamper::CutTail { n: 1 + p.below(40) as u64 },
        5 => Tamper::Excise { at: p.u64() >> 1, n: 1 + p.below(100) as u64 },
        6 => Tamper::Insert {
            at: p.u64() >> 1,
            n: 1 + p.below(40) as u64,
            val: p.u64() as u8,
        },
        7 => Tamper::Len {
            nth: p.below(14) as u8,
            val: match p.below(4) {
                0 => p.below(6) as u64,
                1 => u64::MAX,
                2 => 1 << p.below(60),
                _ => p.below(100) as u64,
            },
        },
        8 => Tamper::Tail { at: p.u64() >> 1, msg: m },
        9 => Tamper::Splice { field, msg: m },
        10 => Tamper::Opening { msg: m },
        11 => Tamper::OpeningBits { how: p.below(7) as u8 },
        12 => Tamper::Set { field, idx, op: Op::Of(m) },
        13 => Tamper::Swap {
            a: (field, idx),
            b: (
                if field < 10 {
                    p.below(10) as u8
                } else {
                    10 + p.below(6) as u8
                },
                p.below(1 << 16),
            ),
        },
        14 => Tamper::Rotate { field },
        15 => Tamper::Drop { field, idx },
        16 => Tamper::Dup { field, idx },
        17 => Tamper::Both(
            Box::new(Tamper::Splice { field: p.below(16) as u8, msg: m }),
            Box::new(Tamper::Splice { field: p.below(16) as u8, msg: m }),
        ),
        18 => {
            // two claims changed by opposite amounts
            let d = p.nonzero();
            let f1 = p.below(10) as u8;
            let f2 = if p.chance(1, 2) { f1 } else { p.below(10) as u8 };
            let i = p.below(64);
            Tamper::Both(
                Box::new(Tamper::Set { field: f1, idx: i, op: Op::Add(Fv(d)) }),
                Box::new(Tamper::Set {
                    field: f2,
                    idx: i + 1,
                    op: Op::Add(Fv(-d)),
                }),
            )
        }
        _ => {
            let op = match p.below(6) {
                0 => Op::Zero,
                1 => Op::Neg,
                2 => Op::Scale(2 + p.below(3) as u64),
                3 => Op::From(p.below(10) as u8, p.below(64)),
                _ => Op::Add(Fv(p.nonzero())),
            };
            Tamper::Set { field, idx, op }
        }
    }
}
