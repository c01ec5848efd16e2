//! C12: random rotations.
use engine::{ensure, ensure_eq, Ctx, Outcome};
use glam::DVec3;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use subsweep::sweep::verif::direction::{direction_sets, random_rotation_matrix, rotate};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    seed: u64,
    draws: usize,
    v: [f64; 3],
    w: [f64; 3],
}

fn proper(c: &Case) -> Outcome {
    let mut rng = StdRng::seed_from_u64(c.seed);
    let mut again = StdRng::seed_from_u64(c.seed);
    let mut previous: Option<[[f64; 3]; 3]> = None;
    for _ in 0..c.draws {
        let m = random_rotation_matrix(&mut rng);
        ensure!(m == random_rotation_matrix(&mut again), "the same generator state gives different rotations");
        for i in 0..3 {
            for j in 0..3 {
                let rows: f64 = (0..3).map(|k| m[i][k] * m[j][k]).sum();
                let columns: f64 = (0..3).map(|k| m[k][i] * m[k][j]).sum();
                let one = if i == j { 1.0 } else { 0.0 };
                ensure!((rows - one).abs() < 1e-12 && (columns - one).abs() < 1e-12, "{m:?} is not orthogonal");
            }
        }
        let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        ensure!((det - 1.0).abs() < 1e-12, "determinant of {m:?} is {det}");
        ensure!(previous != Some(m), "two draws give the same rotation");
        previous = Some(m);
        let (v, w) = (DVec3::from_array(c.v), DVec3::from_array(c.w));
        let turn = |v: DVec3| { let mut v = v; rotate(&mut v, &m); v };
        let scale = v.length() * w.length() + 1e-300;
        let (rv, rw) = (turn(v), turn(w));
        ensure!((rv.length() - v.length()).abs() <= 1e-12 * v.length(), "rotation changes the length of {v}");
        ensure!((rv.dot(rw) - v.dot(w)).abs() <= 1e-12 * scale, "rotation changes the angle of {v} and {w}");
        ensure!((rv.cross(rw) - turn(v.cross(w))).length() <= 1e-12 * scale, "rotation does not keep the handedness of {v} and {w}");
    }
    Ok((DVec3::from_array(c.v).cross(DVec3::from_array(c.w)).length() > 0.0).into())
}

fn product((m, v): &([[f64; 3]; 3], [f64; 3])) -> Outcome {
    let mut r = DVec3::from_array(*v);
    rotate(&mut r, m);
    for i in 0..3 {
        let expected: f64 = (0..3).map(|j| m[i][j] * v[j]).sum();
        let scale: f64 = (0..3).map(|j| (m[i][j] * v[j]).abs()).sum();
        ensure!((r[i] - expected).abs() <= 1e-14 * scale, "component {i} of {m:?} times {v:?} is {}, not {expected}", r[i]);
    }
    ensure_eq!(v.len(), 3, "dimension");
    Ok((v.iter().all(|x| *x != 0.0)).into())
}

/// Distance of the distribution of the values from the uniform one on [0, 1], in units in which
/// more than 3.2 happens once in 400 million times (Kolmogorov-Smirnov).
fn deviation(mut values: Vec<f64>) -> f64 {
    values.sort_by(f64::total_cmp);
    let n = values.len() as f64;
    let distance = values.iter().enumerate().map(|(i, v)| (v - i as f64 / n).abs().max((v - (i + 1) as f64 / n).abs())).fold(0.0, f64::max);
    distance * n.sqrt()
}

/// The antisymmetric part of a rotation by an angle a about n is sin(a) n. Seen from any pole, the axes
/// (n and -n are one) are spread evenly in height and in longitude, whatever the distribution of the angles.
fn isotropic((seed, pole): &(u64, [f64; 3])) -> Outcome {
    let mut rng = StdRng::seed_from_u64(*seed);
    let n = 10_000;
    let mut axes = vec![];
    for _ in 0..n {
        let m = random_rotation_matrix(&mut rng);
        let s = DVec3::new(m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]);
        if s.length() > 1e-3 {
            axes.push(s.normalize());
        }
    }
    ensure!(axes.len() > n / 2, "only {} of {n} rotations turn about a definite axis", axes.len());
    let pole = DVec3::from_array(*pole);
    if pole.length() < 0.1 {
        return Ok(false.into());
    }
    let pole = pole.normalize();
    let (u, v) = pole.any_orthonormal_pair();
    let height = axes.iter().map(|a| a.dot(pole).abs()).collect();
    let longitude = axes.iter().map(|a| (a.dot(v).atan2(a.dot(u)) / std::f64::consts::PI).rem_euclid(1.0)).collect();
    for (name, values) in [("height", height), ("longitude", longitude)] {
        let d = deviation(values);
        ensure!(d < 3.2, "axes of {n} rotations, seen from {pole}, are not spread evenly in {name}: deviation {d}");
    }
    Ok(true.into())
}

pub fn run(mut ctx: Ctx) {
    let v = || prop::array::uniform3(prop_oneof![4 => -3.0..3.0f64, 1 => Just(0.0), 1 => Just(1.0)]);
    let n = ctx.cases(100_000, 2_000_000);
    ctx.stage("proper", "generator seeds, 1-8 draws, pairs of vectors; non-trivial: vectors not parallel", n,
        (any::<u64>(), 1..9usize, v(), v()).prop_map(|(seed, draws, v, w)| Case { seed, draws, v, w }), proper);
    let n = ctx.cases(100_000, 2_000_000);
    ctx.stage("product", "arbitrary matrices and vectors; non-trivial: no component zero", n,
        (prop::array::uniform3(v()), v()), product);
    let n = ctx.cases(200, 4000);
    ctx.stage("isotropic", "generator seeds, 10000 draws each, seen from random poles; non-trivial: the pole is defined", n,
        (any::<u64>(), prop_oneof![prop::array::uniform3(-1.0..1.0f64), Just([1.0, 0.0, 0.0]), Just([0.0, 0.0, 1.0])]), isotropic);
    ctx.finish()
}

/// C21: the predefined sets of directions, and what becomes of them by a series of rotations.
fn directions((which, seed, turns, pole): &(usize, u64, usize, [f64; 3])) -> Outcome {
    let (num, set) = direction_sets()[*which];
    ensure_eq!(set.len(), num, "directions in the set of {num}");
    let mut set: Vec<DVec3> = set.iter().map(|d| DVec3::from_array(*d)).collect();
    let mut rng = StdRng::seed_from_u64(*seed);
    for _ in 0..*turns {
        let m = random_rotation_matrix(&mut rng);
        for d in set.iter_mut() {
            rotate(d, &m);
        }
    }
    let pole = DVec3::from_array(*pole);
    if pole.length() < 0.1 {
        return Ok(false.into());
    }
    let pole = pole.normalize();
    let n = num as f64;
    // The side of a square that has the N-th part of the area of the sphere.
    let typical = (4.0 * std::f64::consts::PI / n).sqrt();
    for (i, d) in set.iter().enumerate() {
        ensure!((d.length() - 1.0).abs() < 3e-6, "direction {i} of {num} has the length {}", d.length());
        for (j, e) in set.iter().enumerate().take(i) {
            let angle = d.dot(*e).clamp(-1.0, 1.0).acos();
            ensure!(angle > 0.9 * typical, "directions {j} and {i} of {num} are {} degrees apart", angle.to_degrees());
        }
    }
    let net: f64 = set.iter().map(|d| d.dot(pole)).sum::<f64>() / n;
    ensure!(net.abs() < 2e-6, "an isotropic source has the net flux {net:e} towards {pole} with {num} directions");
    let outward: f64 = set.iter().map(|d| d.dot(pole).max(0.0)).sum::<f64>() / n;
    ensure!((outward - 0.25).abs() < 0.02, "the mean flux towards {pole} is {outward}, not about 1/4, with {num} directions");
    let square: f64 = set.iter().map(|d| d.dot(pole).powi(2)).sum::<f64>() / n;
    ensure!((square - 1.0 / 3.0).abs() < 0.005, "the mean squared projection on {pole} is {square}, not about 1/3, with {num} directions");
    let nearest = set.iter().map(|d| d.dot(pole).clamp(-1.0, 1.0).acos()).fold(f64::INFINITY, f64::min);
    ensure!(nearest < 0.78 * typical, "no direction of {num} within {} degrees of {pole}", nearest.to_degrees());
    Ok(format!("{num}").into())
}

pub fn run_directions(mut ctx: Ctx) {
    let n = ctx.cases(40_000, 2_000_000);
    ctx.stage("directions", "each predefined set, turned by 0-20 random rotations, seen from a random pole; non-trivial: the pole is defined", n,
        (0..5usize, any::<u64>(), prop_oneof![1 => Just(0), 1 => 0..21usize], prop::array::uniform3(-1.0..1.0f64)), directions);
    ctx.finish()
}
