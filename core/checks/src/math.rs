//! C02, C03: determinant signs, determinants, linear systems.
use std::ops::{Add, Sub};

use engine::{ensure, ensure_eq, no_panic, Ctx, Outcome};
use glam::{DVec2, DVec3};
use num::{BigRational, ToPrimitive, Zero};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::voronoi::math::precision_types::{PrecisionError, PrecisionFloat, PrecisionPoint2d, PrecisionPoint3d};
use subsweep::voronoi::math::traits::{Cross3d, DVector, Dot, MinMax, Vector2d, Vector3d};
use subsweep::voronoi::math::utils::*;

use crate::exact;

type M = Vec<Vec<f64>>;

fn to_array<const R: usize, const C: usize>(m: &M) -> [[f64; C]; R] {
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j]))
}

fn sign(m: &M) -> i32 {
    let s = match m.len() {
        3 => determinant3x3_sign(to_array(m)),
        4 => determinant4x4_sign(to_array(m)),
        _ => determinant5x5_sign(to_array(m)),
    };
    match s {
        Sign::Positive => 1,
        Sign::Negative => -1,
        Sign::Zero => 0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: String,
    m: M,
}

/// Zero, or of magnitude between 2^-60 and 1.
fn entry() -> impl Strategy<Value = f64> {
    prop_oneof![
        6 => -1.0..1.0f64,
        1 => Just(0.0),
        1 => prop::sample::select(vec![1.0, -1.0, 0.5, -0.5, 0.25]),
        1 => (-8..9i32).prop_map(|i| i as f64 / 8.0),
        1 => (-1.0..1.0f64, 0..50i32).prop_map(|(x, e)| x * 2f64.powi(-e)),
    ]
    .prop_map(|x| if x.abs() < 2f64.powi(-60) { 0.0 } else { x })
}

/// Some of one sign only, some with large entries only.
fn matrix(n: usize) -> impl Strategy<Value = M> {
    let entries = prop_oneof![
        4 => prop::collection::vec(prop::collection::vec(entry(), n), n),
        1 => prop::collection::vec(prop::collection::vec(0.7..1.0f64, n), n),
    ];
    (entries, prop_oneof![4 => Just(0), 1 => Just(1), 1 => Just(-1)]).prop_map(|(mut m, sign)| {
        if sign != 0 {
            m.iter_mut().flatten().for_each(|x| *x = x.abs() * sign as f64);
        }
        m
    })
}

/// Matrices of size n, entries at most 1: regular, nearly singular and singular ones.
fn matrices(n: usize) -> impl Strategy<Value = Case> {
    let kind = |name: &'static str| move |m: M| Case { kind: name.into(), m };
    let small = prop::collection::vec(prop::collection::vec((-3..4i32).prop_map(|i| i as f64 / 4.0), n), n);
    // One row is a (rounded) combination of the others.
    let dependent = (matrix(n), prop::collection::vec(-1.0..1.0f64, n), 0..n, any::<bool>(), any::<bool>()).prop_map(
        move |(mut m, mut c, row, transpose, positive)| {
            if positive {
                c.iter_mut().for_each(|x| *x = x.abs());
            }
            for j in 0..n {
                let sum: f64 = (0..n).filter(|k| *k != row).map(|k| c[k] * m[k][j]).sum();
                m[row][j] = sum / n as f64;
            }
            if transpose {
                m = (0..n).map(|i| (0..n).map(|j| m[j][i]).collect()).collect();
            }
            m
        },
    );
    // Exactly dependent: a row is a power-of-two multiple of another.
    let multiple = (matrix(n), 0..n, 1..n, -3..1i32, any::<bool>()).prop_map(move |(mut m, a, d, e, negate)| {
        let b = (a + d) % n;
        m[b] = m[a].iter().map(|x| x * 2f64.powi(e) * if negate { -1.0 } else { 1.0 }).collect();
        m
    });
    // The previous ones with one entry nudged by a few units in the last place.
    let nudged = (small.clone(), 0..n, 1..n, 0..n, -4..5i64).prop_map(move |(mut m, a, d, j, ulps)| {
        let b = (a + d) % n;
        m[b] = m[a].clone();
        let x = m[b][j];
        if x != 0.0 {
            m[b][j] = f64::from_bits((x.to_bits() as i64 + ulps) as u64);
        }
        m
    });
    // Lifted points on (nearly) a common circle / sphere, as in in-circle tests.
    let lifted = (
        prop::collection::vec(prop::collection::vec(-1.0..1.0f64, n - 1), n),
        prop_oneof![Just(0.0), (0.0..60.0f64).prop_map(|e| 2f64.powf(-e))],
        any::<bool>(),
    )
        .prop_map(move |(mut points, off, ones)| {
            let d = if ones { n - 2 } else { n - 1 };
            for p in points.iter_mut() {
                let norm = p[..d].iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                p[..d].iter_mut().for_each(|x| *x = (*x / norm / 2.0) * 0.5 + 0.25);
            }
            for x in points[n - 1][..d].iter_mut() {
                *x *= 1.0 + off;
            }
            points
                .iter()
                .map(|p| {
                    let mut row: Vec<f64> = if ones { vec![1.0] } else { vec![] };
                    row.extend(&p[..d]);
                    row.push(p[..d].iter().map(|x| x * x).sum());
                    row
                })
                .collect::<M>()
        });
    prop_oneof![
        2 => matrix(n).prop_map(kind("random")),
        2 => small.prop_map(kind("small fractions")),
        4 => dependent.prop_map(kind("nearly dependent")),
        2 => multiple.prop_map(kind("exactly dependent")),
        2 => nudged.prop_map(kind("nudged")),
        3 => lifted.prop_map(kind("lifted points")),
    ]
    .prop_map(|mut c| {
        for x in c.m.iter_mut().flatten() {
            if x.abs() < 2f64.powi(-70) {
                *x = 0.0;
            }
        }
        c
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SignCase {
    case: Case,
    exponent: i32,
}

fn check_sign(c: &SignCase) -> Outcome {
    let s = 2f64.powi(c.exponent);
    let m: M = c.case.m.iter().map(|r| r.iter().map(|x| x * s).collect()).collect();
    let n = m.len();
    let (exact, _) = exact::determinant(&m);
    let expected = exact::signum(&exact);
    let max = m.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    // Above a quarter, only where the value exceeds the rounding error of any expansion.
    let noise = 64.0 * n as f64 * f64::EPSILON * exact::magnitude(&m);
    let value = exact::determinant_rational(&m).to_f64().unwrap().abs();
    let above_noise = value > noise;
    if max > 0.25 && !above_noise {
        return Ok(false.into());
    }
    ensure_eq!(sign(&m), expected, "sign of the determinant of {m:?} (exact value {value:e})");
    Ok(match (expected, above_noise) {
        (0, _) => format!("{}: zero", c.case.kind),
        (_, false) => format!("{}: below rounding noise", c.case.kind),
        _ => format!("{}: above rounding noise", c.case.kind),
    }
    .into())
}

fn sign_algebra(&(a, b, epsilon): &(f64, f64, f64)) -> Outcome {
    let of = |x: f64| if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
    let num = |s: Sign| match s { Sign::Positive => 1, Sign::Negative => -1, Sign::Zero => 0 };
    ensure_eq!(num(Sign::of(a)), of(a), "sign of {a}");
    ensure_eq!(num(Sign::of(exact::rational(a))), of(a), "sign of the rational {a}");
    ensure_eq!(num(Sign::of(a) * Sign::of(b)), of(a) * of(b), "product of the signs of {a} and {b}");
    ensure_eq!(Sign::of(a).is_positive(), a > 0.0, "positivity of {a}");
    ensure_eq!(Sign::of(a).is_negative(), a < 0.0, "negativity of {a}");
    let tried = Sign::try_from_val(&a, epsilon);
    if a.abs() < epsilon {
        ensure_eq!(tried, Err(PrecisionError), "{a} is within {epsilon} of zero");
    } else {
        ensure_eq!(tried.map(num), Ok(of(a)), "sign of {a}, which is not within {epsilon} of zero");
    }
    ensure_eq!(Sign::try_from_val(&exact::rational(a), epsilon).map(num), Ok(of(a)), "sign of the rational {a}");
    let panicked = no_panic(|| { Sign::of(a).panic_if_zero(|| "zero"); }).is_err();
    ensure_eq!(panicked, a == 0.0, "zero is rejected, {a}");
    Ok((a * b != 0.0).into())
}

pub fn run_signs(mut ctx: Ctx) {
    for n in [3usize, 4, 5] {
        let cases = ctx.cases(40_000, 1_500_000);
        // Mostly scales at which the sign has to be exact.
        let exponent = prop_oneof![4 => Just(-2), 1 => Just(-3), 2 => -12..-1i32, 1 => -40..-2i32, 1 => 0..8i32, 1 => Just(0)];
        ctx.stage(
            &format!("sign_{n}x{n}"),
            "random, nearly dependent, exactly dependent, nudged and lifted-point matrices at several scales; non-trivial: entries at most 1/4 (any degeneracy) or determinant above rounding noise",
            cases,
            (matrices(n), exponent).prop_map(|(case, exponent)| SignCase { case, exponent }),
            check_sign,
        );
    }
    let cases = ctx.cases(20_000, 200_000);
    let value = || prop_oneof![-2.0..2.0f64, Just(0.0), (-2.0..2.0f64).prop_map(|x| x * 1e-14), (-2.0..2.0f64).prop_map(|x| x * 1e-200)];
    ctx.stage(
        "sign_algebra",
        "pairs of numbers and tolerances; non-trivial: neither is zero",
        cases,
        (value(), value(), prop_oneof![Just(1e-15), Just(1e-8), Just(0.0), 0.0..2.0f64]),
        sign_algebra,
    );
    ctx.finish()
}

fn check_values(c: &SignCase) -> Outcome {
    let s = 2f64.powi(c.exponent);
    let m: M = c.case.m.iter().map(|r| r.iter().map(|x| x * s).collect()).collect();
    let n = m.len();
    let exact = exact::determinant_rational(&m);
    let float = match n {
        3 => determinant3x3(to_array::<3, 3>(&m)),
        4 => determinant4x4(to_array::<4, 4>(&m)),
        _ => determinant5x5(to_array::<5, 5>(&m)),
    };
    let error = (exact::rational(float) - exact.clone()).to_f64().unwrap().abs();
    let bound = 64.0 * n as f64 * f64::EPSILON * exact::magnitude(&m) + 1e-290;
    ensure!(error <= bound, "determinant of {m:?} is {float:e}, off by {error:e}");
    let big = match n {
        3 => determinant3x3(lift_matrix(to_array::<3, 3>(&m))),
        4 => determinant4x4(lift_matrix(to_array::<4, 4>(&m))),
        _ => determinant5x5(lift_matrix(to_array::<5, 5>(&m))),
    };
    ensure!(big == exact, "rational determinant of {m:?} is {big}, not {exact}");
    Ok(if exact.is_zero() { "zero".into() } else { format!("{n}x{n} {}", c.case.kind).into() })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct System {
    a: M,
    b: Vec<f64>,
}

/// Systems whose matrix is P·L·U-like with awkward pivots: zeros, tiny leading entries, permuted rows.
fn systems(n: usize) -> impl Strategy<Value = System> {
    let b = prop::collection::vec(prop_oneof![-2.0..2.0f64, Just(0.0)], n);
    let generic = matrix(n);
    let tiny = (matrix(n), 0..n, 0..n, 0..40i32).prop_map(|(mut m, i, j, e)| {
        m[i][j] *= 2f64.powi(-e);
        m
    });
    let sparse = (matrix(n), prop::collection::vec(prop::collection::vec(0..3u8, n), n), Just((0..n).collect::<Vec<_>>()).prop_shuffle())
        .prop_map(move |(mut m, mask, permutation)| {
            for i in 0..n {
                for j in 0..n {
                    if mask[i][j] > 0 && permutation[i] != j {
                        m[i][j] = 0.0;
                    }
                    if permutation[i] == j && m[i][j].abs() < 0.1 {
                        m[i][j] += 0.5;
                    }
                }
            }
            m
        });
    // Leading blocks that are singular, so that elimination meets zero pivots on the way.
    let blocks = (matrix(n), 0..n).prop_map(move |(mut m, j)| {
        if n >= 2 {
            for k in 0..=j.min(n - 2) {
                m[1][k] = m[0][k];
            }
        }
        m
    });
    (prop_oneof![generic, tiny, sparse, blocks], b).prop_map(|(a, b)| System { a, b })
}

fn augmented<const R: usize, const C: usize>(s: &System) -> [[f64; C]; R] {
    std::array::from_fn(|i| std::array::from_fn(|j| if j < R { s.a[i][j] } else { s.b[i] }))
}

fn residual(s: &System, x: &[f64]) -> Result<(), String> {
    if x.iter().any(|x| !x.is_finite()) {
        return Err(format!("solution {x:?} of {s:?} is not finite"));
    }
    let n = x.len();
    let amax = s.a.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let norm: f64 = x.iter().map(|x| x.abs()).sum();
    let bmax = s.b.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    for i in 0..n {
        let mut r = exact::rational(s.b[i]);
        for j in 0..n {
            r = r - exact::rational(s.a[i][j]) * exact::rational(x[j]);
        }
        let r = r.to_f64().unwrap().abs();
        let bound = 1e4 * f64::EPSILON * (amax * norm + bmax);
        if r > bound {
            return Err(format!("equation {i} of {s:?} is violated by {r:e} by the solution {x:?} (allowed {bound:e})"));
        }
    }
    Ok(())
}

fn solve_float(s: &System) -> Outcome {
    let value = exact::determinant_rational(&s.a).to_f64().unwrap().abs();
    if value < 1e-9 * exact::magnitude(&s.a) || value < 1e-12 {
        return Ok(false.into());
    }
    match s.b.len() {
        2 => residual(s, &solve_system_of_equations::<2, f64>(augmented(s)))?,
        3 => residual(s, &solve_system_of_equations::<3, f64>(augmented(s)))?,
        _ => residual(s, &solve_system_of_equations::<4, f64>(augmented(s)))?,
    }
    Ok(format!("{0}x{0}", s.b.len()).into())
}

fn solve_exact(s: &System) -> Outcome {
    let n = s.b.len();
    if exact::determinant(&s.a).0.is_zero() {
        return Ok(false.into());
    }
    fn lifted<const R: usize, const C: usize>(s: &System) -> [[PrecisionFloat; C]; R] {
        augmented::<R, C>(s).map(|r| r.map(exact::rational))
    }
    let x: Vec<BigRational> = match n {
        2 => solve_system_of_equations::<2, PrecisionFloat>(lifted(s)).to_vec(),
        3 => solve_system_of_equations::<3, PrecisionFloat>(lifted(s)).to_vec(),
        _ => solve_system_of_equations::<4, PrecisionFloat>(lifted(s)).to_vec(),
    };
    for i in 0..n {
        let mut r = exact::rational(s.b[i]);
        for j in 0..n {
            r = r - exact::rational(s.a[i][j]) * x[j].clone();
        }
        ensure!(r.is_zero(), "equation {i} of {s:?} is violated by {r} by the rational solution");
    }
    Ok(format!("{0}x{0}", n).into())
}

fn solve_checked(s: &System) -> Outcome {
    let value = exact::determinant_rational(&s.a);
    let result = solve_3x4_system_of_equations_error(augmented(s));
    match result {
        Err(_) => {
            let v = value.to_f64().unwrap().abs();
            ensure!(v < 1e-3, "a precision error is reported for the regular system {s:?} (determinant {v:e})");
            Ok(if value.is_zero() { "singular, error".into() } else { "nearly singular, error".into() })
        }
        Ok(x) => {
            ensure!(!value.is_zero(), "the singular system {s:?} is reported as solved by {x:?}");
            residual(s, &x)?;
            Ok("solved".into())
        }
    }
}

fn singular_systems() -> impl Strategy<Value = System> {
    let b = prop::collection::vec(-2.0..2.0f64, 3);
    let small = prop::collection::vec(prop::collection::vec((-3..4i32).prop_map(|i| i as f64 / 4.0), 3), 3);
    let multiple = (matrix(3), 0..3usize, 1..3usize, -3..1i32).prop_map(|(mut m, a, d, e)| {
        m[(a + d) % 3] = m[a].iter().map(|x| x * 2f64.powi(e)).collect();
        m
    });
    let column = (matrix(3), 0..3usize, 0..4usize).prop_map(|(mut m, j, k)| {
        for row in m.iter_mut() {
            row[j] = if k < 3 && k != j { row[k] } else { 0.0 };
        }
        m
    });
    (prop_oneof![small, multiple, column], b).prop_map(|(a, b)| System { a, b })
}

type V3 = [f64; 3];
fn exact_vectors(c: &(V3, V3, V3, V3)) -> Outcome {
    let r = |v: &V3| -> [BigRational; 3] { v.map(exact::rational) };
    let p = |v: &V3| PrecisionPoint3d::new(DVec3::from_array(*v));
    let sub = |a: [BigRational; 3], b: [BigRational; 3]| -> [BigRational; 3] { std::array::from_fn(|i| a[i].clone() - b[i].clone()) };
    let add = |a: [BigRational; 3], b: [BigRational; 3]| -> [BigRational; 3] { std::array::from_fn(|i| a[i].clone() + b[i].clone()) };
    let (a, b, d, e) = c;
    let u = sub(r(a), r(b));
    let v = add(r(d), r(e));
    let cross = [
        &u[1] * &v[2] - &u[2] * &v[1],
        &u[2] * &v[0] - &u[0] * &v[2],
        &u[0] * &v[1] - &u[1] * &v[0],
    ];
    let pu = p(a).sub(p(b));
    let pv = p(d).add(p(e));
    let pc = pu.cross(&pv);
    ensure!([pc.x.clone(), pc.y.clone(), pc.z.clone()] == cross, "exact cross product of {c:?}");
    let dot: BigRational = (0..3).map(|i| &u[i] * &v[i]).sum();
    ensure!(pu.clone().dot(pv) == dot, "exact dot product of {c:?}");
    ensure!(pu.dot(pc).is_zero(), "cross product of {c:?} is not perpendicular");
    let f = |v: &V3| DVec3::from_array(*v);
    let fc = Cross3d::cross(&f(a), &f(b));
    let ra = r(a);
    let rb = r(b);
    let exact_cross = [&ra[1] * &rb[2] - &ra[2] * &rb[1], &ra[2] * &rb[0] - &ra[0] * &rb[2], &ra[0] * &rb[1] - &ra[1] * &rb[0]];
    let scale = f(a).abs().max_element() * f(b).abs().max_element();
    for i in 0..3 {
        let error = (exact_cross[i].clone() - exact::rational(fc[i])).to_f64().unwrap().abs();
        ensure!(error <= 1e-14 * scale, "cross product of {a:?} and {b:?}");
    }
    let exact_dot: BigRational = (0..3).map(|i| &ra[i] * &rb[i]).sum();
    let error = (exact_dot - exact::rational(Dot::dot(f(a), f(b)))).to_f64().unwrap().abs();
    ensure!(error <= 1e-14 * scale, "dot product of {a:?} and {b:?}");
    Ok((cross.iter().any(|x| !x.is_zero())).into())
}

/// A vector as the generic code of the crate sees it, against plain numbers.
fn generic_vector<V: DVector + Dot<Float = f64> + MinMax + Copy>(a: V, b: V, x: &[f64], y: &[f64], parts: impl Fn(V) -> Vec<f64>) -> Result<(), String>
where
    V: subsweep::voronoi::math::traits::Vector<Float = f64>,
{
    let what = format!("{x:?} and {y:?}");
    let close = |u: f64, v: f64, scale: f64| (u - v).abs() <= 1e-14 * scale;
    let square: f64 = x.iter().zip(y).map(|(x, y)| (x - y) * (x - y)).sum();
    ensure!(close(DVector::distance_squared(&a, b), square, square), "squared distance of {what}");
    ensure!(close(DVector::distance(&a, b), square.sqrt(), square.sqrt()), "distance of {what}");
    let scale = x.iter().chain(y).fold(0f64, |m, v| m.max(v.abs()));
    let dot: f64 = x.iter().zip(y).map(|(x, y)| x * y).sum();
    ensure!(close(Dot::dot(a, b), dot, scale * scale), "dot product of {what}");
    ensure_eq!(DVector::max_element(a), x.iter().cloned().fold(f64::NEG_INFINITY, f64::max), "largest component of {x:?}");
    let pick = |f: fn(f64, f64) -> f64| x.iter().zip(y).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>();
    ensure_eq!(parts(MinMax::min(a, b)), pick(f64::min), "minimum of {what}");
    ensure_eq!(parts(MinMax::max(a, b)), pick(f64::max), "maximum of {what}");
    let norm = x.iter().map(|x| x * x).sum::<f64>().sqrt();
    if norm > 1e-100 {
        for (n, x) in parts(DVector::normalize(&a)).iter().zip(x) {
            ensure!(close(*n, x / norm, 1.0), "normalized {x:?}");
        }
    }
    Ok(())
}

fn generic_vectors(c: &(V3, V3, f64)) -> Outcome {
    let (a, b, epsilon) = c;
    let (p, q) = (DVec3::from_array(*a), DVec3::from_array(*b));
    generic_vector(p, q, a, b, |v| v.to_array().to_vec())?;
    let (p2, q2) = (DVec2::new(a[0], a[1]), DVec2::new(b[0], b[1]));
    generic_vector(p2, q2, &a[..2], &b[..2], |v| v.to_array().to_vec())?;
    generic_vector(a[0], b[0], &a[..1], &b[..1], |v| vec![v])?;
    ensure_eq!([Vector3d::x(&p), Vector3d::y(&p), Vector3d::z(&p)], *a, "components");
    ensure_eq!([Vector2d::x(&p2), Vector2d::y(&p2)], [a[0], a[1]], "components");
    let e = a.map(exact::rational);
    let r = PrecisionPoint3d::new(p);
    ensure!([Vector3d::x(&r), Vector3d::y(&r), Vector3d::z(&r)] == e, "exact components of {a:?}");
    let (r, s) = (PrecisionPoint2d::new(p2), PrecisionPoint2d::new(q2));
    ensure!([Vector2d::x(&r), Vector2d::y(&r)] == [e[0].clone(), e[1].clone()], "exact components of {p2:?}");
    let (d, t) = (r.clone() - s.clone(), r + s);
    let f = b.map(exact::rational);
    ensure!([Vector2d::x(&d), Vector2d::y(&d)] == [&e[0] - &f[0], &e[1] - &f[1]], "exact difference of {p2:?} and {q2:?}");
    ensure!([Vector2d::x(&t), Vector2d::y(&t)] == [&e[0] + &f[0], &e[1] + &f[1]], "exact sum of {p2:?} and {q2:?}");
    // A value within the error bound is an error, one clearly beyond is not; exact values never are.
    let inside = a[0].abs() < 0.99 * epsilon;
    let outside = a[0].abs() > 1.01 * epsilon;
    let found = PrecisionError::check(&a[0], *epsilon);
    ensure!(!(inside && found.is_ok()), "{} is not found to be below {epsilon}", a[0]);
    ensure!(!(outside && found.is_err()), "{} is found to be below {epsilon}", a[0]);
    ensure!(PrecisionError::check(&e[0], *epsilon).is_ok(), "an exact value has no error");
    Ok((a != b).into())
}

pub fn run_values(mut ctx: Ctx) {
    for n in [3usize, 4, 5] {
        let cases = ctx.cases(8_000, 300_000);
        ctx.stage(
            &format!("determinant_{n}x{n}"),
            "matrices as for the signs; non-trivial: determinant not zero",
            cases,
            (matrices(n), -10..10i32).prop_map(|(case, exponent)| SignCase { case, exponent }),
            check_values,
        );
    }
    for n in [2usize, 3, 4] {
        let cases = ctx.cases(12_000, 300_000);
        ctx.stage(
            &format!("solve_float_{n}"),
            "systems with zero, tiny and permuted pivots; non-trivial: regular matrix",
            cases, systems(n), solve_float);
        let cases = ctx.cases(6_000, 100_000);
        ctx.stage(
            &format!("solve_exact_{n}"),
            "systems with zero, tiny and permuted pivots in rational arithmetic; non-trivial: regular matrix",
            cases, systems(n), solve_exact);
    }
    let cases = ctx.cases(100_000, 1_500_000);
    ctx.stage(
        "solve_checked",
        "regular, nearly singular and singular 3x3 systems; all count",
        cases, prop_oneof![2 => systems(3), 1 => singular_systems()], solve_checked);
    let cases = ctx.cases(8_000, 100_000);
    let v3 = || prop::array::uniform3(prop_oneof![3 => -2.0..2.0f64, 1 => Just(0.0), 1 => (-2.0..2.0f64).prop_map(|x| x * 1e-9)]);
    ctx.stage(
        "vectors",
        "four vectors; non-trivial: cross product not zero",
        cases, (v3(), v3(), v3(), v3()), exact_vectors);
    let epsilon = || prop_oneof![(-16.0..0.0f64).prop_map(|x| 10f64.powf(x)), Just(1e-15)];
    ctx.stage(
        "generic_vectors",
        "two vectors and an error bound, through the traits of generic code in one, two and three dimensions; non-trivial: the vectors differ",
        cases, (v3(), v3(), epsilon()), generic_vectors);
    ctx.finish()
}
