//! Exposes the library packages (curve, decimal) as contract calls, one per public function.
#![no_std]
use curve::{Curve, CurveError};
use soroban_decimal::Decimal;
use soroban_sdk::{contract, contractimpl, Env, U256};

#[path = "../../../packages/decimal/src/decimal256.rs"]
#[allow(dead_code)]
mod decimal256;
use decimal256::Decimal256;

#[contract]
pub struct Probe;

fn code(r: Result<(), CurveError>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(CurveError::NotMonotonic) => 1,
        Err(CurveError::MonotonicIncreasing) => 2,
        Err(CurveError::MonotonicDecreasing) => 3,
        Err(CurveError::PointsOutOfOrder) => 4,
        Err(CurveError::MissingSteps) => 5,
        Err(CurveError::TooComplex) => 6,
    }
}

fn d(x: i128) -> Decimal {
    Decimal::new(x)
}

fn d256(env: &Env, x: u128) -> Decimal256 {
    Decimal256::new(env, x)
}

#[contractimpl]
impl Probe {
    // curve
    pub fn value(_env: Env, c: Curve, x: u64) -> u128 {
        c.value(x)
    }
    pub fn validate(_env: Env, c: Curve) -> u32 {
        code(c.validate())
    }
    pub fn increasing(_env: Env, c: Curve) -> u32 {
        code(c.validate_monotonic_increasing())
    }
    pub fn decreasing(_env: Env, c: Curve) -> u32 {
        code(c.validate_monotonic_decreasing())
    }
    pub fn complexity(_env: Env, c: Curve, max: u32) -> u32 {
        code(c.validate_complexity(max))
    }
    pub fn size(_env: Env, c: Curve) -> u32 {
        c.size()
    }
    pub fn range(_env: Env, c: Curve) -> (u128, u128) {
        c.range()
    }
    pub fn end(_env: Env, c: Curve) -> Option<u64> {
        c.end()
    }
    pub fn combine(env: Env, c: Curve, o: Curve) -> Curve {
        c.combine(&env, &o)
    }
    // the sum of two curves, looked at at one time
    pub fn sum_at(env: Env, c: Curve, o: Curve, x: u64) -> u128 {
        c.combine(&env, &o).value(x)
    }

    // 128-bit decimals
    pub fn add(_env: Env, a: i128, b: i128) -> i128 {
        (d(a) + d(b)).atomics()
    }
    pub fn sub(_env: Env, a: i128, b: i128) -> i128 {
        (d(a) - d(b)).atomics()
    }
    pub fn mul(_env: Env, a: i128, b: i128) -> i128 {
        (d(a) * d(b)).atomics()
    }
    pub fn div(_env: Env, a: i128, b: i128) -> i128 {
        (d(a) / d(b)).atomics()
    }
    pub fn mul_int(_env: Env, a: i128, n: i128) -> i128 {
        d(a) * n
    }
    pub fn int_mul(_env: Env, a: i128, n: i128) -> i128 {
        n * d(a)
    }
    pub fn div_int(_env: Env, a: i128, n: i128) -> i128 {
        (d(a) / n).atomics()
    }
    pub fn ratio(_env: Env, a: i128, b: i128) -> i128 {
        Decimal::from_ratio(a, b).atomics()
    }
    pub fn percent(_env: Env, a: i64) -> i128 {
        Decimal::percent(a).atomics()
    }
    pub fn permille(_env: Env, a: i64) -> i128 {
        Decimal::permille(a).atomics()
    }
    pub fn bps(_env: Env, a: i64) -> i128 {
        Decimal::bps(a).atomics()
    }
    pub fn atomics(_env: Env, a: i128, places: i32) -> i128 {
        Decimal::from_atomics(a, places).atomics()
    }
    pub fn precision(_env: Env, a: i128, places: i32) -> i128 {
        d(a).to_i128_with_precision(places)
    }
    pub fn inv(_env: Env, a: i128) -> Option<i128> {
        d(a).inv().map(|x| x.atomics())
    }
    pub fn pow(_env: Env, a: i128, n: u32) -> i128 {
        d(a).pow(n).atomics()
    }
    pub fn abs(_env: Env, a: i128) -> i128 {
        d(a).abs().atomics()
    }
    pub fn abs_diff(_env: Env, a: i128, b: i128) -> i128 {
        d(a).abs_diff(d(b)).atomics()
    }
    pub fn cmp(_env: Env, a: i128, b: i128) -> (bool, bool, bool, bool) {
        (d(a) < d(b), d(a) <= d(b), d(a) == d(b), d(a) > d(b))
    }
    pub fn consts(_env: Env, a: i128) -> (i128, i128, i128, i128, bool, i32) {
        (
            Decimal::one().atomics(),
            Decimal::zero().atomics(),
            Decimal::MAX.atomics(),
            Decimal::MIN.atomics(),
            d(a).is_zero(),
            d(a).decimal_places(),
        )
    }

    // 256-bit decimals; results that do not fit 128 bits come back as nothing
    pub fn add256(env: Env, a: u128, b: u128) -> Option<u128> {
        (d256(&env, a) + d256(&env, b)).atomics()
    }
    pub fn sub256(env: Env, a: u128, b: u128) -> Option<u128> {
        (d256(&env, a) - d256(&env, b)).atomics()
    }
    pub fn mul256(env: Env, a: u128, b: u128) -> Option<u128> {
        d256(&env, a).mul(&env, &d256(&env, b)).atomics()
    }
    pub fn div256(env: Env, a: u128, b: u128) -> Option<u128> {
        d256(&env, a).div(&env, d256(&env, b)).atomics()
    }
    pub fn div_u256(env: Env, a: u128, b: u128) -> Option<u128> {
        d256(&env, a).div_by_u256(U256::from_u128(&env, b)).atomics()
    }
    pub fn ratio256(env: Env, a: u128, b: u128) -> Option<u128> {
        Decimal256::from_ratio(&env, U256::from_u128(&env, a), U256::from_u128(&env, b)).atomics()
    }
    pub fn percent256(env: Env, a: u64) -> Option<u128> {
        Decimal256::percent(&env, a).atomics()
    }
    pub fn permille256(env: Env, a: u64) -> Option<u128> {
        Decimal256::permille(&env, a).atomics()
    }
    pub fn bps256(env: Env, a: u64) -> Option<u128> {
        Decimal256::bps(&env, a).atomics()
    }
    pub fn atomics256(env: Env, a: u128, places: i32) -> Option<u128> {
        Decimal256::from_atomics(&env, a, places).atomics()
    }
    pub fn precision256(env: Env, a: u128, places: i32) -> u128 {
        d256(&env, a).to_u128_with_precision(places)
    }
    pub fn inv256(env: Env, a: u128) -> Option<u128> {
        d256(&env, a).inv(&env).and_then(|x| x.atomics())
    }
    pub fn pow256(env: Env, a: u128, n: u32) -> Option<u128> {
        d256(&env, a).pow(&env, n).atomics()
    }
    pub fn abs_diff256(env: Env, a: u128, b: u128) -> Option<u128> {
        d256(&env, a).abs_diff(&env, d256(&env, b)).atomics()
    }
    pub fn cmp256(env: Env, a: u128, b: u128) -> (bool, bool, bool, bool) {
        let (x, y) = (d256(&env, a), d256(&env, b));
        (x < y, x <= y, x == y, x > y)
    }
}
