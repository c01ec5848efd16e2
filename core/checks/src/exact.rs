//! Exact arithmetic on floating point matrices, independent of the code under test.
use num::bigint::BigInt;
use num::{BigRational, Signed, Zero};

/// A finite double as mantissa and exponent.
fn decompose(x: f64) -> (i64, i32) {
    let bits = x.to_bits();
    let sign = if bits >> 63 == 0 { 1 } else { -1 };
    let exponent = ((bits >> 52) & 0x7ff) as i32;
    let fraction = (bits & ((1 << 52) - 1)) as i64;
    if exponent == 0 { (sign * fraction, -1074) } else { (sign * (fraction | 1 << 52), exponent - 1075) }
}

pub fn rational(x: f64) -> BigRational {
    let (m, e) = decompose(x);
    if e >= 0 {
        BigRational::from_integer(BigInt::from(m) << e as usize)
    } else {
        BigRational::new(BigInt::from(m), BigInt::from(1) << (-e) as usize)
    }
}

/// Fraction-free (Bareiss) determinant of the exact values, times 2^shift (returned).
pub fn determinant(m: &[Vec<f64>]) -> (BigInt, i64) {
    let n = m.len();
    let min = m.iter().flatten().filter(|x| **x != 0.0).map(|x| decompose(*x).1).min().unwrap_or(0);
    let mut a: Vec<Vec<BigInt>> = m
        .iter()
        .map(|row| {
            row.iter()
                .map(|x| {
                    let (m, e) = decompose(*x);
                    if m == 0 { BigInt::zero() } else { BigInt::from(m) << (e - min) as usize }
                })
                .collect()
        })
        .collect();
    let shift = min as i64 * n as i64;
    let mut sign = 1;
    let mut previous = BigInt::from(1);
    for k in 0..n {
        if a[k][k].is_zero() {
            match (k + 1..n).find(|i| !a[*i][k].is_zero()) {
                None => return (BigInt::zero(), shift),
                Some(i) => {
                    a.swap(i, k);
                    sign = -sign;
                }
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] = (&a[i][j] * &a[k][k] - &a[i][k] * &a[k][j]) / &previous;
            }
        }
        previous = a[k][k].clone();
    }
    (previous * sign, shift)
}

pub fn determinant_rational(m: &[Vec<f64>]) -> BigRational {
    let (v, shift) = determinant(m);
    if shift >= 0 {
        BigRational::from_integer(v << shift as usize)
    } else {
        BigRational::new(v, BigInt::from(1) << (-shift) as usize)
    }
}

pub fn signum(x: &BigInt) -> i32 {
    if x.is_zero() { 0 } else if x.is_positive() { 1 } else { -1 }
}

/// An upper bound of the sum of the magnitudes of all terms of the determinant.
pub fn magnitude(m: &[Vec<f64>]) -> f64 {
    let rows: f64 = m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).product();
    let columns: f64 = (0..m.len()).map(|j| m.iter().map(|r| r[j].abs()).sum::<f64>()).product();
    rows.min(columns)
}
