use crate::polynomials::*;
use crate::experiments::Fr;
use crate::fft::multicore::Worker;
use crate::fri::{FriIop, NaiveFriIop, FriProofPrototype};
use crate::iop::blake2s_trivial_iop::TrivialBlake2sIOP;
use ff::PrimeField;
type F1 = NaiveFriIop<Fr, TrivialBlake2sIOP<Fr>>;
#[test]
fn fri_prototype_is_the_same_for_any_number_of_workers() {
    let n = 64usize;
    let c: Vec<Fr> = (0..8).map(|i| Fr::from_str(&format!("{}", i * i + 3)).unwrap()).collect();
    let p = Polynomial::<Fr, Coefficients>::from_coeffs(c).unwrap();
    let w1 = Worker::new_with_cpus(1);
    let v = p.lde_using_multiple_cosets_naive(&w1, n / 8).unwrap();
    let want = <F1 as FriIop<Fr>>::proof_from_lde(&v, 8, 1, &w1).unwrap();
    for cpus in 1..40 {
        let w = Worker::new_with_cpus(cpus);
        let got = <F1 as FriIop<Fr>>::proof_from_lde(&v, 8, 1, &w).unwrap();
        assert!(want.get_final_root() == got.get_final_root(), "cpus {}", cpus);
        assert!(want.get_roots() == got.get_roots(), "cpus {}", cpus);
    }
}
