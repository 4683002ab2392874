use crate::arith::Field;

/// Little-endian multilinear evaluation: variable 0 selects between neighbouring entries.
pub fn eval_le<F: Field>(vals: &[F], point: &[F]) -> F {
    let mut cur = vals.to_vec();
    for r in point {
        if cur.len() == 1 {
            // constant in the remaining variables
            break;
        }
        cur = cur.chunks(2).map(|c| if c.len() == 2 { c[0] + (c[1] - c[0]) * *r } else { c[0] * (F::ONE - *r) }).collect();
    }
    cur[0]
}

pub trait MultilinearExtension<F: Field> {
    fn num_vars(&self) -> usize;
    fn hypercube_size(&self) -> usize { 1 << self.num_vars() }
    fn hypercube_basis_ref(&self) -> &[F];
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct MultiLinearPoly<F: Field> { pub coeffs: Vec<F> }
impl<F: Field> MultiLinearPoly<F> {
    pub fn new(coeffs: Vec<F>) -> Self { Self { coeffs } }
    pub fn evaluate_jolt(&self, p: &[F]) -> F { eval_le(&self.coeffs, p) }
}
impl<F: Field> MultilinearExtension<F> for MultiLinearPoly<F> {
    fn num_vars(&self) -> usize { self.coeffs.len().ilog2() as usize }
    fn hypercube_basis_ref(&self) -> &[F] { &self.coeffs }
}
#[derive(Debug, Clone)]
pub struct RefMultiLinearPoly<'a, F: Field> { pub coeffs: &'a [F] }
impl<'a, F: Field> RefMultiLinearPoly<'a, F> {
    pub fn from_ref(coeffs: &'a [F]) -> Self { Self { coeffs } }
}
impl<'a, F: Field> MultilinearExtension<F> for RefMultiLinearPoly<'a, F> {
    fn num_vars(&self) -> usize { self.coeffs.len().ilog2() as usize }
    fn hypercube_basis_ref(&self) -> &[F] { self.coeffs }
}
pub struct EqPolynomial<F: Field> { _p: std::marker::PhantomData<F> }
impl<F: Field> EqPolynomial<F> {
    /// eq(r, bits of i), little endian.
    pub fn ith_eq_vec_elem(r: &[F], i: usize) -> F {
        let mut v = F::ONE;
        for (k, x) in r.iter().enumerate() {
            v *= if (i >> k) & 1 == 1 { *x } else { F::ONE - *x };
        }
        v
    }
    pub fn build_eq_x_r(r: &[F]) -> Vec<F> { (0..1usize << r.len()).map(|i| Self::ith_eq_vec_elem(r, i)).collect() }
}
