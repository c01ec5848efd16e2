//! C11: bounding boxes.
use std::fmt::Debug;
use std::ops::{Add, Div, Sub};

use engine::{ensure, ensure_eq, Ctx, Outcome};
use glam::{DVec2, DVec3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::verif::Extent;
use subsweep::voronoi::{DVector, MinMax};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    points: Vec<[f64; 3]>,
    rotate: usize,
    wrap: [i8; 3],
}

trait Coordinates: Copy + Debug {
    const N: usize;
    fn make(a: [f64; 3]) -> Self;
    fn get(self, i: usize) -> f64;
}
impl Coordinates for f64 {
    const N: usize = 1;
    fn make(a: [f64; 3]) -> Self { a[0] }
    fn get(self, _: usize) -> f64 { self }
}
impl Coordinates for DVec2 {
    const N: usize = 2;
    fn make(a: [f64; 3]) -> Self { DVec2::new(a[0], a[1]) }
    fn get(self, i: usize) -> f64 { self[i] }
}
impl Coordinates for DVec3 {
    const N: usize = 3;
    fn make(a: [f64; 3]) -> Self { DVec3::from_array(a) }
    fn get(self, i: usize) -> f64 { self[i] }
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-14 * scale
}

fn check<P>(c: &Case) -> Outcome
where
    P: Coordinates + MinMax + Add<P, Output = P> + Sub<P, Output = P> + Div<f64, Output = P> + DVector<Float = f64>,
{
    let points: Vec<P> = c.points.iter().map(|p| P::make(*p)).collect();
    let extent = Extent::from_points(points.iter().copied());
    ensure_eq!(extent.is_some(), !points.is_empty(), "a box exists exactly for non-empty point sets");
    let Some(e) = extent else { return Ok(false.into()) };
    for i in 0..P::N {
        let lo = points.iter().map(|p| p.get(i)).fold(f64::INFINITY, f64::min);
        let hi = points.iter().map(|p| p.get(i)).fold(f64::NEG_INFINITY, f64::max);
        ensure_eq!(e.min.get(i), lo, "minimum in dimension {i} of {points:?}");
        ensure_eq!(e.max.get(i), hi, "maximum in dimension {i} of {points:?}");
    }
    let mut shuffled = points.clone();
    shuffled.rotate_left(c.rotate % points.len());
    shuffled.extend(points.iter().rev().copied());
    let f = Extent::from_points(shuffled.into_iter()).unwrap();
    let built = Extent::from_min_max(e.min, e.max);
    let images = e.including_periodic_images();
    let scale = (0..P::N).map(|i| e.min.get(i).abs().max(e.max.get(i).abs())).fold(0.0, f64::max);
    for i in 0..P::N {
        let (lo, hi) = (e.min.get(i), e.max.get(i));
        ensure!(f.min.get(i) == lo && f.max.get(i) == hi, "the box of {points:?} depends on order or repetition");
        ensure!(built.min.get(i) == lo && built.max.get(i) == hi, "box built from its corners");
        for e in [&e, &f, &built] {
            ensure!(close(e.center().get(i), 0.5 * (lo + hi), scale), "centre {:?} of the box {lo} .. {hi}", e.center());
            ensure!(e.side_lengths().get(i) == hi - lo, "side length in dimension {i}");
        }
        let side = hi - lo;
        ensure!(close(images.max.get(i) - images.min.get(i), 3.0 * side, 4.0 * scale), "box with images is not three times as large: {} .. {} for {lo} .. {hi}", images.min.get(i), images.max.get(i));
        ensure!(close(images.center().get(i), 0.5 * (lo + hi), 4.0 * scale), "box with images has another centre");
        for p in &points {
            let x = p.get(i) + c.wrap[i] as f64 * side;
            ensure!(images.min.get(i) <= x + 1e-14 * 4.0 * scale && x <= images.max.get(i) + 1e-14 * 4.0 * scale, "image {x} of a point is outside of {} .. {}", images.min.get(i), images.max.get(i));
        }
    }
    let longest = (0..P::N).map(|i| e.max.get(i) - e.min.get(i)).fold(f64::NEG_INFINITY, f64::max);
    ensure_eq!(e.max_side_length(), longest, "longest side of {:?} .. {:?}", e.min, e.max);
    // Vector helpers the boxes and the grid construction are made of.
    let (p, q) = (points[0], points[points.len() - 1]);
    let d2: f64 = (0..P::N).map(|i| (p.get(i) - q.get(i)).powi(2)).sum();
    ensure!((p.distance_squared(q) - d2).abs() <= 1e-14 * d2, "squared distance of {p:?} and {q:?}");
    ensure!((p.distance(q) - d2.sqrt()).abs() <= 1e-14 * d2.sqrt(), "distance of {p:?} and {q:?}");
    ensure!(p.distance(q) == q.distance(p), "distance is not symmetric");
    for i in 0..P::N {
        ensure_eq!(MinMax::min(p, q).get(i), p.get(i).min(q.get(i)), "component-wise minimum");
        ensure_eq!(MinMax::max(p, q).get(i), p.get(i).max(q.get(i)), "component-wise maximum");
    }
    ensure_eq!(p.max_element(), (0..P::N).map(|i| p.get(i)).fold(f64::NEG_INFINITY, f64::max), "largest component");
    Ok(if points.len() == 1 { "one point" } else { "several points" }.into())
}

pub fn run(mut ctx: Ctx) {
    let coordinate = || prop_oneof![
        3 => -10.0..10.0f64,
        1 => prop::sample::select(vec![0.0, 1.0, -1.0, 0.5]),
        1 => (-10.0..10.0f64).prop_map(|x| x * 1e20),
        1 => (-10.0..10.0f64).prop_map(|x| x * 1e-20),
    ];
    let point = prop_oneof![
        4 => prop::array::uniform3(coordinate()),
        1 => prop::array::uniform3(1.0..2.0f64),
        1 => prop::array::uniform3(-2.0..-1.0f64),
    ];
    let case = || (prop_oneof![20 => 0..12usize, 1 => 12..400usize].prop_flat_map({ let point = point.clone(); move |n| prop::collection::vec(point.clone(), n) }), 0..12usize, prop::array::uniform3(-1..2i8))
        .prop_map(|(points, rotate, wrap)| Case { points, rotate, wrap });
    let rule = "0-11, sometimes up to 399 points with coordinates of both signs and 60 orders of magnitude; non-trivial: not empty";
    let n = ctx.cases(30_000, 600_000);
    ctx.stage("3d", rule, n, case(), check::<DVec3>);
    ctx.stage("2d", rule, n, case(), check::<DVec2>);
    ctx.stage("1d", rule, n, case(), check::<f64>);
    ctx.finish()
}
