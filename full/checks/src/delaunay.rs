//! C13: Delaunay triangulation. C14: Voronoi cells.
use std::collections::{HashMap, HashSet};

use engine::{ensure, ensure_eq, Ctx, Outcome};
use num::Signed;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::voronoi::verif::{self as hook, Mesh};

use crate::exact;
use crate::geometry::{voronoi, Body};
use crate::mpiutil::random;
use glam::DVec3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Shape {
    Uniform,
    Clusters(u8),
    /// Lattice with displacements of this part of its spacing.
    Lattice(f64),
    /// Near a sphere, displaced by this part of its radius.
    Sphere(f64),
    /// Near a plane.
    Slab(f64),
    /// Near a line.
    Rod(f64),
}

/// A point set: names of points, which stand for random places in the unit cube (so that shrinking
/// removes points, but does not move them into special positions), shaped and scaled.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cloud {
    pub names: Vec<u32>,
    pub shape: Shape,
    /// log10 of the sides.
    pub sides: [f64; 3],
    pub offset: [f64; 3],
}

impl Cloud {
    pub fn scale(&self) -> [f64; 3] {
        [0, 1, 2].map(|i| 10f64.powf(self.sides[i]))
    }

    fn raw(&self) -> Vec<[f64; 3]> {
        let mut seen = HashSet::new();
        self.names.iter().filter(|n| seen.insert(**n)).map(|n| [0, 1, 2].map(|i| random(*n, i))).collect()
    }

    /// Points in the unit cube.
    pub fn unit(&self, dim: usize) -> Vec<Vec<f64>> {
        let raw = self.raw();
        let n = raw.len();
        raw
            .iter()
            .enumerate()
            .map(|(k, r)| {
                let p: [f64; 3] = match self.shape {
                    Shape::Uniform => *r,
                    Shape::Clusters(c) => {
                        let c = c as usize + 1;
                        let center = |j: usize, i: usize| ((j * 7 + i * 3 + 1) as f64 * 0.618_033_988_75).fract();
                        let size = 0.3f64.powi((k % c) as i32 + 1);
                        [0, 1, 2].map(|i| center(k % c, i) * (1.0 - size) + size * r[i])
                    }
                    Shape::Lattice(jitter) => {
                        let side = (n as f64).powf(1.0 / dim as f64).ceil() as usize;
                        let at = [k % side, k / side % side, k / side / side];
                        [0, 1, 2].map(|i| (at[i] as f64 + 0.5 + jitter * (r[i] - 0.5)) / (side as f64 + 1.0))
                    }
                    Shape::Sphere(jitter) => {
                        let mut v = [0, 1, 2].map(|i| r[i] - 0.5);
                        if dim == 2 {
                            v[2] = 0.0;
                        }
                        let len = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                        let radius = 0.33 * (1.0 + jitter * (r[0] + r[1] * 3.0 + r[2]).fract());
                        v.map(|x| 0.5 + x / len * radius)
                    }
                    Shape::Slab(t) => {
                        let mut p = *r;
                        p[dim - 1] = 0.5 + t * (p[dim - 1] - 0.5);
                        p
                    }
                    Shape::Rod(t) => [r[0], 0.5 + t * (r[1] - 0.5), 0.5 + t * (r[2] - 0.5)],
                };
                p[..dim].to_vec()
            })
            .collect()
    }

    pub fn points(&self, dim: usize) -> Vec<Vec<f64>> {
        let s = self.scale();
        self.unit(dim)
            .into_iter()
            .map(|p| (0..dim).map(|i| (p[i] + self.offset[i]) * s[i]).collect())
            .collect()
    }
}

pub fn shape() -> impl Strategy<Value = Shape> {
    let jitter = || prop_oneof![Just(0.5), Just(1e-2), Just(1e-4)];
    prop_oneof![
        3 => Just(Shape::Uniform),
        2 => (1..5u8).prop_map(Shape::Clusters),
        2 => jitter().prop_map(Shape::Lattice),
        1 => jitter().prop_map(Shape::Sphere),
        1 => jitter().prop_map(Shape::Slab),
        1 => jitter().prop_map(Shape::Rod),
    ]
}

/// `equal`: the same scale in all directions.
pub fn cloud(sizes: std::ops::Range<usize>, equal: bool) -> impl Strategy<Value = Cloud> {
    let sides = prop_oneof![
        3 => Just(0.0),
        1 => -2.0..2.0f64,
        1 => prop::sample::select(vec![-20.0, 20.0, 24.0]),
    ];
    let aspect = move || if equal { Just(0.0).boxed() } else { prop_oneof![Just(0.0), -1.0..1.0f64].boxed() };
    (
        prop::collection::vec(any::<u32>(), sizes),
        shape(),
        sides,
        [aspect(), aspect(), aspect()],
        prop_oneof![2 => Just([0.0; 3]), 1 => prop::array::uniform3(-3.0..3.0f64)],
    )
        .prop_map(|(names, shape, base, aspect, offset)| Cloud { names, shape, sides: aspect.map(|a| a + base), offset })
}

pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&sub(a, b))
}

/// Determinant by elimination with pivoting.
pub fn det(mut m: Vec<Vec<f64>>) -> f64 {
    let n = m.len();
    let mut d = 1.0;
    for k in 0..n {
        let p = (k..n).max_by(|a, b| m[*a][k].abs().total_cmp(&m[*b][k].abs())).unwrap();
        if m[p][k] == 0.0 {
            return 0.0;
        }
        if p != k {
            m.swap(p, k);
            d = -d;
        }
        d *= m[k][k];
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                m[i][j] -= f * m[k][j];
            }
        }
    }
    d
}

/// d! times the signed volume of the simplex.
pub fn orientation(corners: &[&Vec<f64>]) -> f64 {
    det(corners[1..].iter().map(|c| sub(c, corners[0])).collect())
}

/// Positive if the point is inside of the sphere through the corners of a positively oriented
/// simplex; and a bound of what rounding of the coordinates (relative to `length`) can make of it.
fn in_sphere(corners: &[&Vec<f64>], p: &[f64], length: f64) -> (f64, f64) {
    let rows: Vec<Vec<f64>> = corners[1..]
        .iter()
        .map(|c| sub(c, corners[0]))
        .chain([sub(p, corners[0])])
        .map(|mut r| {
            let w = dot(&r, &r);
            r.push(w);
            r
        })
        .collect();
    let dim = corners.len() - 1;
    let reach = rows.iter().map(|r| r[dim].sqrt()).fold(0.0, f64::max);
    // The determinant with the lifted coordinate last: negative inside, for positive orientation.
    (-det(rows), 1e-13 * length * reach.powi(dim as i32 + 1))
}

fn exact_in_sphere(corners: &[&Vec<f64>], p: &[f64]) -> f64 {
    use num::ToPrimitive;
    let mut rows: Vec<Vec<num::BigRational>> = vec![];
    for c in corners[1..].iter().map(|c| &c[..]).chain([p]) {
        let d: Vec<num::BigRational> = c.iter().zip(corners[0]).map(|(x, y)| exact::rational(*x) - exact::rational(*y)).collect();
        let w: num::BigRational = d.iter().map(|x| x * x).sum();
        rows.push(d.into_iter().chain([w]).collect());
    }
    let d = exact_det(rows);
    let s = if d.is_negative() { 1.0 } else { -1.0 };
    s * d.abs().to_f64().unwrap_or(f64::MAX)
}

fn exact_det(m: Vec<Vec<num::BigRational>>) -> num::BigRational {
    let n = m.len();
    if n == 1 {
        return m[0][0].clone();
    }
    let mut sum = num::BigRational::from_integer(0.into());
    for j in 0..n {
        let minor: Vec<Vec<_>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(i, _)| *i != j).map(|(_, x)| x.clone()).collect()).collect();
        let term = &m[0][j] * exact_det(minor);
        if j % 2 == 0 {
            sum += term;
        } else {
            sum -= term;
        }
    }
    sum
}

/// Everything that makes the mesh the Delaunay triangulation of its points.
pub fn check_mesh(m: &Mesh, dim: usize) -> Result<(), String> {
    let corners = |s: usize| -> Vec<&Vec<f64>> { m.simplices[s].points.iter().map(|p| &m.points[*p]).collect() };
    ensure_eq!(m.outer.iter().filter(|x| **x).count(), dim + 1, "corners of the surrounding simplex");
    let outer: Vec<&Vec<f64>> = (0..m.points.len()).filter(|i| m.outer[*i]).map(|i| &m.points[i]).collect();
    let length = outer.iter().map(|a| dist(a, outer[0])).fold(0.0, f64::max);
    let mut used: HashSet<usize> = HashSet::new();
    let mut volume = 0.0;
    let mut boundary = 0;
    let mut seen = HashSet::new();
    for (s, simplex) in m.simplices.iter().enumerate() {
        let set: HashSet<usize> = simplex.points.iter().copied().collect();
        ensure_eq!(set.len(), dim + 1, "simplex {:?} has repeated corners", simplex.points);
        let mut sorted = simplex.points.clone();
        sorted.sort();
        ensure!(seen.insert(sorted), "simplex {:?} occurs twice", simplex.points);
        used.extend(simplex.points.iter());
        let o = orientation(&corners(s));
        let reach = corners(s).iter().map(|c| dist(c, corners(s)[0])).fold(0.0, f64::max);
        ensure!(o > -1e-13 * length * reach.powi(dim as i32 - 1), "simplex {:?} is turned over: {:?}", simplex.points, corners(s));
        volume += o;
        for k in 0..=dim {
            let face: HashSet<usize> = simplex.faces[k].iter().copied().collect();
            let expected: HashSet<usize> = set.iter().copied().filter(|p| *p != simplex.points[k]).collect();
            ensure!(face == expected, "face {face:?} is listed opposite to corner {} of {:?}", simplex.points[k], simplex.points);
            match simplex.neighbours[k] {
                None => {
                    boundary += 1;
                    ensure!(face.iter().all(|p| m.outer[*p]), "face {face:?} has nothing on its other side");
                }
                Some((t, q)) => {
                    ensure!(t < m.simplices.len(), "face {face:?} leads to a removed simplex");
                    let other = &m.simplices[t];
                    let back = (0..=dim).find(|j| other.neighbours[*j] == Some((s, simplex.points[k])));
                    ensure!(back.is_some(), "simplex {:?} lists neighbour {:?}, not the reverse", simplex.points, other.points);
                    ensure_eq!(other.points[back.unwrap()], q, "corner on the other side of face {face:?}");
                    ensure!(face.iter().all(|p| other.points.contains(p)), "neighbours {:?} and {:?} do not share the face {face:?}", simplex.points, other.points);
                }
            }
        }
    }
    ensure_eq!(boundary, dim + 1, "faces on the boundary");
    ensure_eq!(2 * m.num_faces, (dim + 1) * (m.simplices.len() + 1), "number of faces (counted twice)");
    let whole = orientation(&outer).abs();
    ensure!((volume - whole).abs() < 1e-9 * whole, "the simplices have the volume {volume}, the surrounding one {whole}");
    ensure_eq!(used.len(), m.points.len(), "number of points that are corners");
    for s in 0..m.simplices.len() {
        let c = corners(s);
        for p in 0..m.points.len() {
            if m.simplices[s].points.contains(&p) {
                continue;
            }
            let (value, error) = in_sphere(&c, &m.points[p], length);
            if value > error && exact_in_sphere(&c, &m.points[p]) > error {
                return Err(format!("point {:?} is inside of the circumsphere of {c:?}", m.points[p]));
            }
        }
        // The centres become the corners of the Voronoi cells.
        let reach = c.iter().map(|x| dist(x, c[0])).fold(0.0, f64::max);
        if orientation(&c) > 1e-5 * reach.powi(dim as i32) {
            let center = &m.simplices[s].circumcenter;
            let r: Vec<f64> = c.iter().map(|x| dist(x, center)).collect();
            let far = norm(center).max(length) * 1e-9;
            ensure!(r.iter().all(|x| (x - r[0]).abs() < far), "centre {center:?} has the distances {r:?} from the corners {c:?}");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MeshCase {
    cloud: Cloud,
    /// Size of the surrounding box relative to that of the points, None: as large as the points.
    margin: Option<f64>,
    later: usize,
}

fn check_case(c: &MeshCase, dim: usize) -> Outcome {
    let points = c.cloud.points(dim);
    let side = c.cloud.scale();
    let min: Vec<f64> = (0..dim).map(|i| (c.cloud.offset[i] - c.margin.unwrap_or(0.0)) * side[i]).collect();
    let max: Vec<f64> = (0..dim).map(|i| (c.cloud.offset[i] + 1.0 + c.margin.unwrap_or(0.0)) * side[i]).collect();
    // The bounding box needs a volume, and later points have to be inside of it.
    let custom = c.margin.is_some() || points.len() < 4;
    let later = if custom { c.later.min(points.len() - 1) } else { 0 };
    let extent = custom.then(|| (&min[..], &max[..]));
    let mesh = if dim == 2 { hook::triangulate_2d(&points, extent, later) } else { hook::triangulate_3d(&points, extent, later) };
    ensure_eq!(mesh.inserted.len(), points.len(), "number of inserted points");
    for (i, p) in points.iter().enumerate() {
        ensure!(&mesh.points[mesh.inserted[i]] == p, "point {p:?} is in the mesh as {:?}", mesh.points[mesh.inserted[i]]);
    }
    check_mesh(&mesh, dim)?;
    let name = format!("{:?}", c.cloud.shape);
    let cubic = if c.cloud.sides[0] == c.cloud.sides[1] && (dim == 2 || c.cloud.sides[0] == c.cloud.sides[2]) { "cubic" } else { "not cubic" };
    Ok(if points.len() < 3 { String::new() } else { format!("{} {cubic}", name.split('(').next().unwrap()) }.into())
}

pub fn run(mut ctx: Ctx) {
    let big = if ctx.thorough { 150 } else { 60 };
    let case = move || {
        (prop_oneof![1 => cloud(1..8, false), 2 => cloud(5..30, false), 1 => cloud(30..big, false)], prop::option::weighted(0.7, prop::sample::select(vec![0.0, 0.1, 1.0])), prop_oneof![Just(0usize), 0..8usize])
            .prop_map(|(cloud, margin, later)| MeshCase { cloud, margin, later })
    };
    let rule = "1-60 points (thorough: 150): uniform, clustered, near a lattice, sphere, plane or line, in boxes of any aspect and size, some inserted after the others; non-trivial: at least 3 points";
    let n = ctx.cases(3_000, 100_000);
    ctx.stage("3d", rule, n, case(), |c| check_case(c, 3));
    let n = ctx.cases(6_000, 200_000);
    ctx.stage("2d", rule, n, case(), |c| check_case(c, 2));
    ctx.finish()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CellCase {
    cloud: Cloud,
    probes: Vec<u32>,
}

fn vec3(p: &[f64]) -> DVec3 {
    DVec3::new(p[0], p[1], p.get(2).copied().unwrap_or(0.0))
}

fn check_cells(c: &CellCase, dim: usize) -> Outcome {
    let points = c.cloud.points(dim);
    let n = points.len();
    let (mut min, mut max) = (points[0].clone(), points[0].clone());
    for p in &points {
        for i in 0..dim {
            min[i] = min[i].min(p[i]);
            max[i] = max[i].max(p[i]);
        }
    }
    let side = sub(&max, &min);
    let length = side.iter().copied().fold(0.0, f64::max);
    let probes: Vec<Vec<f64>> = c.probes.iter().map(|q| (0..dim).map(|i| min[i] + side[i] * random(*q, i as u32 + 10)).collect()).collect();
    let cells = if dim == 2 { hook::cells_2d(&points, &probes) } else { hook::cells_3d(&points, &probes) };
    ensure_eq!(cells.len(), n, "number of cells");
    let mut of: Vec<Option<usize>> = vec![None; n];
    for (k, cell) in cells.iter().enumerate() {
        ensure!(of[cell.particle].replace(k).is_none(), "two cells of particle {}", cell.particle);
        ensure_eq!(cell.center, points[cell.particle], "generating point of a cell");
    }
    let cell_of = |i: usize| &cells[of[i].unwrap()];
    // Every place belongs to the cell of the nearest point.
    let margin = side.iter().copied().fold(f64::INFINITY, f64::min);
    for (q, probe) in probes.iter().enumerate() {
        let mut order: Vec<(f64, usize)> = points.iter().enumerate().map(|(i, p)| (dist(p, probe), i)).collect();
        order.sort_by(|a, b| a.0.total_cmp(&b.0));
        if n > 1 && order[1].0 - order[0].0 < 1e-6 * length {
            continue;
        }
        for i in 0..n {
            let inside = cell_of(i).contains[q];
            if i != order[0].1 {
                ensure!(!inside, "{probe:?} is in the cell of {:?}, but nearer to {:?}", points[i], points[order[0].1]);
            } else if order[0].0 < margin {
                ensure!(inside, "{probe:?} is not in the cell of its nearest point {:?}", points[i]);
            }
        }
    }
    let mut finite = 0;
    for i in 0..n {
        let cell = cell_of(i);
        // Orthogonal to the connection of the points, and the same from both sides.
        let mut met = HashSet::new();
        let surface: f64 = cell.faces.iter().map(|f| f.area).sum();
        let mut flux = vec![0.0; dim];
        for f in &cell.faces {
            ensure!(f.area >= 0.0 && (norm(&f.normal) - 1.0).abs() < 1e-9, "face of area {} and normal {:?}", f.area, f.normal);
            for k in 0..dim {
                flux[k] += f.area * f.normal[k];
            }
            if let Some(j) = f.neighbour {
                ensure!(j != i, "cell {i} is its own neighbour");
                ensure!(met.insert(j), "cell {i} has two faces to cell {j}");
                let d = sub(&points[j], &points[i]);
                let expected: Vec<f64> = d.iter().map(|x| x / norm(&d)).collect();
                ensure!(dist(&f.normal, &expected) < 1e-9, "normal {:?} of the face from {:?} to {:?}", f.normal, points[i], points[j]);
                let back = cell_of(j).faces.iter().find(|g| g.neighbour == Some(i));
                ensure!(back.is_some(), "cell {j} has no face to cell {i}, the reverse exists");
                let back = back.unwrap();
                ensure!((back.area - f.area).abs() <= 1e-9 * f.area, "face between {i} and {j} has the areas {} and {}", f.area, back.area);
            }
        }
        if cell.infinite {
            continue;
        }
        finite += 1;
        ensure!(norm(&flux) < 1e-6 * surface, "the faces of cell {i} do not close: {flux:?}, surface {surface}");
        // Compare with the cell made by cutting.
        let big = 20.0 * length;
        let half = if dim == 2 { 0.5 * length } else { big };
        let body = Body::cuboid(DVec3::new(-big, -big, -half), DVec3::new(big, big, half));
        let others: Vec<(usize, DVec3)> = (0..n).filter(|j| *j != i).map(|j| (j, vec3(&points[j]) - vec3(&points[i]))).collect();
        let body = voronoi(body, others);
        let thickness = if dim == 2 { length } else { 1.0 };
        let volume = body.volume() / thickness;
        let r = cell.points.iter().map(|p| dist(p, &cell.center)).fold(0.0, f64::max);
        if r > 5.0 * length {
            // Far corners: rounding is magnified.
            continue;
        }
        let scale = r.powi(dim as i32 - 1);
        ensure!((volume - cell.volume).abs() < 1e-6 * scale * r, "cell {i} has the volume {volume}, not {}", cell.volume);
        let size = if dim == 2 { (cell.volume / std::f64::consts::PI).sqrt() } else { (cell.volume * 0.75 / std::f64::consts::PI).cbrt() };
        ensure!((size - cell.size).abs() <= 1e-9 * size, "size {} of a cell of volume {}", cell.size, cell.volume);
        let mut listed: HashMap<usize, f64> = cell.faces.iter().filter_map(|f| f.neighbour.map(|j| (j, f.area))).collect();
        for f in &body.faces {
            if let Some(j) = f.tag {
                let area = f.area() / thickness;
                let found = listed.remove(&j).unwrap_or(0.0);
                ensure!((area - found).abs() < 1e-6 * scale, "face of cells {i} and {j} has the area {area}, not {found}");
            }
        }
        for (j, area) in listed {
            ensure!(area < 1e-6 * scale, "cells {i} and {j} share no face, but one of area {area} is listed");
        }
    }
    Ok(if n < 3 { "" } else if finite > 0 { "with bounded cells" } else { "only unbounded cells" }.into())
}

pub fn run_cells(mut ctx: Ctx) {
    let big = if ctx.thorough { 120 } else { 60 };
    let case = move || (prop_oneof![1 => cloud(4..10, false), 2 => cloud(10..40, false), 1 => cloud(40..big, false)], prop::collection::vec(any::<u32>(), 1..20)).prop_map(|(cloud, probes)| CellCase { cloud, probes });
    let rule = "4-60 points (thorough: 120) as for the triangulation, 1-19 places to look up; non-trivial: at least 3 points, classes tell whether bounded cells were compared with cells made by cutting";
    let n = ctx.cases(2_000, 60_000);
    ctx.stage("3d", rule, n, case(), |c| check_cells(c, 3));
    let n = ctx.cases(4_000, 120_000);
    ctx.stage("2d", rule, n, case(), |c| check_cells(c, 2));
    ctx.finish()
}
