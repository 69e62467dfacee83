#![allow(unexpected_cfgs)]
mod attack;
mod circuit;
mod drive;
mod fieldkzg;
mod fold;
mod formula;
mod mopen;
mod gen;
mod io;
mod model;
mod node;
mod probe;
mod roots;
mod proc;
mod prng;
mod seam;
mod shrink;
mod tamper;
mod world;

pub type F = ark_bls12_381::Fr;
pub type Poly = ark_poly::univariate::DensePolynomial<F>;
pub type Kzg = zero_over_k::commitment::KZG10<ark_bls12_381::Bls12_381>;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(drive::main(&args[1..]));
}
