// Users of the frontend macros of the repository: their expansions are analysed, nothing here is run.
#![allow(dead_code, unused)]
use expander_compiler::frontend::{extra, *};
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*};

declare_circuit!(Probe {
    a: Variable,
    p: PublicVariable,
    b: [Variable; 3],
    q: [PublicVariable; 4],
    c: [[Variable; 2]; 5],
    n: usize,
    d: [Variable],
    e: [[PublicVariable; 6]],
    f: [[Variable]],
    h: PublicVariable,
    g: Variable,
});

#[memorized]
pub fn first<C: Config, B: RootAPI<C>>(
    api: &mut B,
    a: Variable,
    b: &Variable,
    c: Vec<Variable>,
    n: u32,
    d: &Vec<Vec<Variable>>,
    e: usize,
    v: &Vec<i64>,
) -> Vec<Vec<Variable>> {
    user_first(api, a, *b, &c, n, d, e, v)
}

#[memorized]
pub fn second<C: Config, B: RootAPI<C>>(
    api: &mut B,
    a: Variable,
    b: &Variable,
    c: Vec<Variable>,
    n: u32,
    d: &Vec<Vec<Variable>>,
    e: usize,
    v: &Vec<i64>,
) -> Vec<Vec<Variable>> {
    user_second(api, a, *b, &c, n, d, e, v)
}

#[memorized]
pub fn third<C: Config, B: RootAPI<C>>(api: &mut B, w: Vec<Vec<Vec<Variable>>>, x: &Variable, n: u64) -> Variable {
    user_third(api, &w, *x, n)
}

#[memorized]
pub fn fourth<C: Config, B: RootAPI<C>>(api: &mut B, n: i32, v: &Vec<Variable>, m: isize) {
    user_fourth(api, n, v, m)
}

pub mod other {
    use super::*;
    #[memorized]
    pub fn first<C: Config, B: RootAPI<C>>(
        api: &mut B,
        a: Variable,
        b: &Variable,
        c: Vec<Variable>,
        n: u32,
        d: &Vec<Vec<Variable>>,
        e: usize,
        v: &Vec<i64>,
    ) -> Vec<Vec<Variable>> {
        user_second(api, a, *b, &c, n, d, e, v)
    }
    pub fn memo<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, v: Vec<Variable>, d: Vec<Vec<Variable>>, w: Vec<i64>) {
        memorized_first(api, a, &a, v.clone(), 1, &d, 2, &w);
    }
}

fn user_first<C: Config, B: RootAPI<C>>(_api: &mut B, _a: Variable, _b: Variable, _c: &[Variable], _n: u32, _d: &[Vec<Variable>], _e: usize, _v: &[i64]) -> Vec<Vec<Variable>> {
    unimplemented!()
}
fn user_second<C: Config, B: RootAPI<C>>(_api: &mut B, _a: Variable, _b: Variable, _c: &[Variable], _n: u32, _d: &[Vec<Variable>], _e: usize, _v: &[i64]) -> Vec<Vec<Variable>> {
    unimplemented!()
}
fn user_third<C: Config, B: RootAPI<C>>(_api: &mut B, _w: &[Vec<Vec<Variable>>], _x: Variable, _n: u64) -> Variable {
    unimplemented!()
}
fn user_fourth<C: Config, B: RootAPI<C>>(_api: &mut B, _n: i32, _v: &[Variable], _m: isize) {
    unimplemented!()
}

#[kernel]
fn kern<C: Config>(
    api: &mut API<C>,
    a: &[[InputVariable; 3]; 4],
    b: &InputVariable,
    c: &mut [InputOutputVariable; 5],
    d: &mut [[[OutputVariable; 2]; 7]; 6],
    e: &mut OutputVariable,
) {
    user_kernel(api, a, b, c, d, e)
}

#[inline(never)]
fn user_kernel<C: Config>(_api: &mut API<C>, _a: &Vec<Vec<Variable>>, _b: &Variable, _c: &mut Vec<Variable>, _d: &mut Vec<Vec<Vec<Variable>>>, _e: &mut Variable) {
    unimplemented!()
}

pub fn compiled<C: Config>() -> Result<KernelPrimitive<C>, Error> {
    compile_kern::<C>()
}

pub fn memo<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, v: Vec<Variable>, d: Vec<Vec<Variable>>, w: Vec<i64>) {
    memorized_first(api, a, &a, v.clone(), 1, &d, 2, &w);
    memorized_second(api, a, &a, v.clone(), 1, &d, 2, &w);
    memorized_third(api, vec![d], &a, 3);
    memorized_fourth(api, 4, &v, 5);
}

pub trait Caller {
    fn call_kernel(&mut self, kernel: &u64, num_parallel: usize, ios: &mut [u32]) -> Result<(), Error>;
}

pub fn called<T: Caller>(ctx: &mut T, kern: u64, x: u32, mut y: u32, z: u32, mut t: u32) -> (Result<(), Error>, u32, u32, u32, u32) {
    let res = call_kernel!(ctx, kern, 9, x, mut y, z, mut t);
    (res, x, y, z, t)
}
