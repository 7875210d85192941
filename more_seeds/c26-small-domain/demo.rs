use crate::polynomials::*;
use crate::experiments::Fr;
use crate::fft::multicore::Worker;
use ff::{Field, PrimeField};
#[test]
fn degree_one_on_small_domains_with_many_workers() {
    for cpus in 1..20 {
        let w = Worker::new_with_cpus(cpus);
        for log in 1..6 {
            let size = 1u64 << log;
            let p = Polynomial::<Fr, Coefficients>::from_coeffs(vec![Fr::from_str("5").unwrap(), Fr::from_str("7").unwrap()]).unwrap();
            let v = p.evaluate_at_domain_for_degree_one(&w, size).unwrap().into_coeffs();
            let d = crate::domains::Domain::<Fr>::new_for_size(size).unwrap();
            let mut x = Fr::one();
            for k in 0..size as usize {
                assert!(v[k] == p.evaluate_at(&w, x), "cpus {} size {} at {}", cpus, size, k);
                x.mul_assign(&d.generator);
            }
        }
    }
}
