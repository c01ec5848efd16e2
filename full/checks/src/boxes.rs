//! C30: periodic boxes, their parts and trees of particles in them.
use engine::{ensure, ensure_eq, Ctx, Outcome};
use glam::DVec3;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::parameters::SimulationBox;
use subsweep::prelude::{Extent, QuadTree};
use subsweep::units::{Length, VecLength};
use subsweep::verif as root;

use crate::mpiutil::random;

fn vector(v: DVec3) -> VecLength {
    VecLength::new_unchecked(v)
}

fn unit(name: u32) -> DVec3 {
    DVec3::new(random(name, 0), random(name, 1), random(name, 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cuboid {
    side: f64,
    stretch: [f64; 2],
    corner: [f64; 3],
}

impl Cuboid {
    fn sides(&self) -> DVec3 {
        10f64.powf(self.side) * DVec3::new(1.0, self.stretch[0], self.stretch[1])
    }
    fn min(&self) -> DVec3 {
        self.sides() * DVec3::from(self.corner)
    }
    fn max(&self) -> DVec3 {
        self.min() + self.sides()
    }
    fn extent(&self) -> Extent {
        Extent::from_min_max(vector(self.min()), vector(self.max()))
    }
    /// What a rounding error may amount to.
    fn rounding(&self, p: DVec3) -> f64 {
        1e-14 * (p.abs().max_element() + self.min().abs().max(self.max().abs()).max_element())
    }
}

fn cuboid() -> impl Strategy<Value = Cuboid> {
    (
        prop_oneof![2 => Just(0.0), 1 => -3.0..22.0f64],
        prop_oneof![1 => Just([1.0, 1.0]), 2 => prop::array::uniform2(0.05..5.0f64)],
        prop_oneof![1 => Just([0.0; 3]), 1 => Just([-0.5; 3]), 2 => prop::array::uniform3(-3.0..3.0f64)],
    )
        .prop_map(|(side, stretch, corner)| Cuboid { side, stretch, corner })
}

/// A coordinate relative to a box: inside, at its faces and its middle or near them, or outside.
fn coordinate() -> impl Strategy<Value = f64> {
    prop_oneof![
        4 => 0.0..1.0f64,
        2 => (0..5u8, -16.0..-1.0f64, any::<bool>()).prop_map(|(k, e, up)| k as f64 / 4.0 + 10f64.powf(e) * if up { 1.0 } else { -1.0 }),
        1 => (-2..5i8).prop_map(|k| k as f64 / 2.0),
        1 => -20.0..20.0f64,
    ]
}

fn point() -> impl Strategy<Value = [f64; 3]> {
    prop::array::uniform3(coordinate())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BoxCase {
    cuboid: Cuboid,
    points: Vec<[f64; 3]>,
}

fn inside(p: DVec3, min: DVec3, max: DVec3, slack: f64) -> bool {
    p.cmpge(min - slack).all() && p.cmple(max + slack).all()
}

fn box_test(case: &BoxCase) -> Outcome {
    let c = &case.cuboid;
    let (min, max, sides) = (c.min(), c.max(), c.sides());
    let extent = c.extent();
    let box_ = SimulationBox::new(c.extent());
    let points: Vec<DVec3> = case.points.iter().map(|p| min + DVec3::from(*p) * sides).collect();
    let mut crossed = false;
    let mut wrapped = vec![];
    for p in &points {
        let e = c.rounding(*p);
        let w = box_.periodic_wrap(vector(*p)).value_unchecked();
        ensure!(inside(w, min, max, e), "{p} is wrapped to {w}, outside of {min} {max}");
        let turns = (w - *p) / sides;
        ensure!(((turns - turns.round()) * sides).abs().max_element() <= 20.0 * e, "{p} is wrapped to {w}, which is no image of it");
        crossed |= turns.round() != DVec3::ZERO;
        if inside(*p, min, max, -e) {
            ensure!((w - *p).abs().max_element() <= 2.0 * e, "{p}, in the box, is wrapped to {w}");
        }
        wrapped.push(w.clamp(min, max));
        // Images: each translation once.
        let mut seen = vec![];
        for (t, image) in root::periodic_images(&box_, vector(*p)) {
            let image = image.value_unchecked();
            let shift = DVec3::from(t);
            ensure!(!seen.contains(&t), "two images {t:?}");
            ensure!((image - *p - shift * sides).abs().max_element() <= 4.0 * e, "image {t:?} of {p} at {image}");
            seen.push(t);
        }
        ensure_eq!(seen.len(), 27, "number of images");
        // Membership and distance.
        if inside(*p, min, max, -e) || !inside(*p, min, max, e) {
            let expected = inside(*p, min, max, 0.0);
            ensure_eq!(extent.contains(&vector(*p)), expected, "whether {p} is in {min} {max}");
        }
        let d = (min - *p).max(*p - max).max(DVec3::ZERO).length();
        let found = extent.squared_distance_to_pos(&vector(*p)).value_unchecked();
        ensure!(found >= 0.0 && (found.sqrt() - d).abs() <= 4.0 * e, "{p} is {:e} from {min} {max}, expected {d:e}", found.sqrt());
    }
    for (p, q) in wrapped.iter().zip(wrapped.iter().skip(1)) {
        let e = c.rounding(*p);
        let d = box_.periodic_distance_vec(&vector(*p), &vector(*q)).value_unchecked();
        let shortest = (*p - *q).abs().min((sides - (*p - *q).abs()).abs());
        ensure!((d.abs() - shortest).abs().max_element() <= 10.0 * e, "{p} and {q} are {d} apart, expected {shortest}");
        let turns = (d - (*p - *q)) / sides;
        ensure!(((turns - turns.round()) * sides).abs().max_element() <= 10.0 * e, "{p} and {q} are {d} apart, which leads to no image");
        let length = box_.periodic_distance(&vector(*p), &vector(*q)).value_unchecked();
        ensure!((length - d.length()).abs() <= 10.0 * e, "{p} and {q} are {length:e} apart, expected {:e}", d.length());
        let back = box_.periodic_distance(&vector(*q), &vector(*p)).value_unchecked();
        ensure!((length - back).abs() <= 10.0 * e, "{p} to {q} is {length:e}, back {back:e}");
    }
    // The box itself.
    let e = c.rounding(DVec3::ZERO);
    ensure!((extent.side_lengths().value_unchecked() - sides).abs().max_element() <= 4.0 * e, "sides {}", extent.side_lengths().value_unchecked());
    ensure!((extent.max_side_length().value_unchecked() - sides.max_element()).abs() <= 4.0 * e, "longest side {:?}", extent.max_side_length());
    let slack = 1e-9 + 10.0 * e / sides.min_element();
    ensure!((extent.volume().value_unchecked() / (sides.x * sides.y * sides.z) - 1.0).abs() <= slack, "volume {:?}", extent.volume());
    ensure!((extent.center().value_unchecked() - (min + max) / 2.0).abs().max_element() <= 4.0 * e, "centre");
    // Parts: each an eighth, together all of it, in the order of the index of points.
    let parts = extent.get_quadrants();
    let centre = extent.center().value_unchecked();
    let mut corners = vec![];
    for (i, part) in parts.iter().enumerate() {
        let (a, b) = (part.min.value_unchecked(), part.max.value_unchecked());
        let upper = [0, 1, 2].map(|k| a[k] == centre[k]);
        for k in 0..3 {
            let expected = if upper[k] { (centre[k], max[k]) } else { (min[k], centre[k]) };
            ensure!((a[k], b[k]) == expected, "part {i} of {min} {max} is {a} {b}");
        }
        ensure!(!corners.contains(&upper), "part {i} of {min} {max} is {a} {b}, as one before");
        corners.push(upper);
        ensure_eq!(extent.get_quadrant_index(&part.center()), i, "part of the centre of part {i}");
    }
    for w in &wrapped {
        let i = extent.get_quadrant_index(&vector(*w));
        ensure!(i < 8, "part {i}");
        ensure!(inside(*w, parts[i].min.value_unchecked(), parts[i].max.value_unchecked(), 0.0), "{w} is not in part {i}");
    }
    // Boxes around points and around boxes.
    let all: Vec<VecLength> = points.iter().map(|p| vector(*p)).collect();
    let (low, high) = points.iter().fold((DVec3::INFINITY, DVec3::NEG_INFINITY), |(a, b), p| (a.min(*p), b.max(*p)));
    match Extent::from_positions(all.iter()) {
        None => ensure!(points.is_empty(), "no box around {points:?}"),
        Some(b) => {
            ensure!(!points.is_empty(), "a box around nothing");
            ensure!(b.min.value_unchecked() == low && b.max.value_unchecked() == high, "{b:?} around {points:?}");
        }
    }
    let boxes: Vec<Extent> = points.chunks(2).map(|p| Extent::from_min_max(vector(p[0].min(p[p.len() - 1])), vector(p[0].max(p[p.len() - 1])))).collect();
    match Extent::get_all_encompassing(boxes.iter()) {
        None => ensure!(boxes.is_empty(), "no box around boxes"),
        Some(b) => ensure!(b.min.value_unchecked() == low && b.max.value_unchecked() == high && b.center().value_unchecked() == (low + high) / 2.0, "{b:?} around {boxes:?}"),
    }
    // Cubes, and text.
    let side = Length::new_unchecked(sides.x);
    let cube = Extent::cube_from_side_length(side);
    ensure!(cube.min.value_unchecked() == DVec3::ZERO && cube.max.value_unchecked() == DVec3::splat(sides.x), "cube {cube:?}");
    let cube = Extent::cube_from_side_length_centered(side);
    ensure!(cube.center().value_unchecked().length() <= 1e-15 * sides.x && (cube.max.value_unchecked() - sides.x / 2.0).length() <= 1e-15 * sides.x && (cube.side_lengths().value_unchecked() - sides.x).length() <= 1e-15 * sides.x, "cube {cube:?}");
    for q in points.iter().take(2) {
        let around = root::Extent::<DVec3>::cube_around_sphere(*q, sides.y);
        ensure!(around.center == *q && (around.min - (*q - sides.y)).length() == 0.0 && (around.max - (*q + sides.y)).length() == 0.0, "cube around {q}: {} {}", around.min, around.max);
    }
    let near = |a: DVec3, b: DVec3| (a - b).abs().max_element() <= 1e-12 * (a.abs().max_element() + b.abs().max_element());
    let show = |v: DVec3| format!("({:e} {:e} {:e}) m", v.x, v.y, v.z);
    for (text, a, b) in [
        (format!("min: {}\nmax: {}", show(min), show(max)), min, max),
        (show(sides), DVec3::ZERO, sides),
        (format!("{:e} km", sides.x / 1e3), DVec3::ZERO, DVec3::splat(sides.x)),
    ] {
        let read: Extent = serde_yaml::from_str(&text).map_err(|e| format!("cannot read {text:?}: {e}"))?;
        ensure!(near(read.min.value_unchecked(), a) && near(read.max.value_unchecked(), b) && near(read.center().value_unchecked() * 2.0, a + b), "{text:?} is read as {read:?}");
    }
    Ok(if crossed { "a point outside of the box" } else { "" }.into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TreeCase {
    cuboid: Cuboid,
    points: Vec<u32>,
    per_leaf: usize,
    depth: usize,
    searches: Vec<([f64; 3], f64)>,
}

impl TreeCase {
    /// In the whole box, on a coarse lattice (also its faces), in a small cluster, or at one place.
    fn points(&self) -> Vec<DVec3> {
        self.points
            .iter()
            .map(|m| match m % 8 {
                0..=2 => unit(*m),
                3..=4 => (unit(*m) * 8.0).round() / 8.0,
                5..=6 => DVec3::new(0.3, 0.7, 0.55) + unit(*m) * 1e-4,
                _ => DVec3::splat(0.625),
            })
            .map(|u| (self.cuboid.min() + u * self.cuboid.sides()).clamp(self.cuboid.min(), self.cuboid.max()))
            .collect()
    }
}

fn tree_case() -> impl Strategy<Value = TreeCase> {
    (
        cuboid(),
        prop::collection::vec(any::<u32>(), 0..150),
        prop_oneof![3 => 1..6usize, 1 => Just(30usize), 1 => 0..40usize],
        prop_oneof![1 => 0..4usize, 2 => 4..21usize],
        prop::collection::vec((prop::array::uniform3(0.0..1.0f64), prop_oneof![2 => 0.0..0.5f64, 1 => (-6.0..0.5f64).prop_map(|e| 10f64.powf(e))]), 1..8),
    )
        .prop_map(|(cuboid, points, per_leaf, depth, searches)| TreeCase { cuboid, points, per_leaf, depth, searches })
}

type Tree = QuadTree<root::Counter, root::Named>;

/// Leaves, nodes and depth of the parts agree; all contents, with the boxes they are in.
fn walk<'a>(tree: &'a Tree, case: &TreeCase, depth: usize, out: &mut Vec<&'a root::Named>) -> Result<usize, String> {
    let before = out.len();
    match root::children(tree) {
        Ok(children) => {
            ensure!(depth < case.depth, "a node is divided at depth {depth} of {}", case.depth);
            let boxes = tree.extent.get_quadrants();
            for (c, b) in children.iter().zip(boxes) {
                ensure!(c.extent.min == b.min && c.extent.max == b.max, "the parts of {:?} are not those of the node", tree.extent);
                walk(c, case, depth + 1, out)?;
            }
            ensure!(out.len() - before > case.per_leaf, "a node of {} particles is divided", out.len() - before);
        }
        Err(leaf) => {
            ensure!(leaf.len() <= case.per_leaf + 1 || depth >= case.depth, "a leaf at depth {depth} has {} particles", leaf.len());
            for l in leaf {
                ensure!(inside(l.position.value_unchecked(), tree.extent.min.value_unchecked(), tree.extent.max.value_unchecked(), 0.0), "{:?} is not in its leaf {:?}", l.position, tree.extent);
                out.push(l);
            }
        }
    }
    ensure_eq!(tree.data.count, out.len() - before, "particles counted in a node at depth {depth}");
    Ok(depth)
}

fn names(list: impl Iterator<Item = usize>) -> Vec<usize> {
    let mut list: Vec<usize> = list.collect();
    list.sort();
    list
}

fn tree_test(case: &TreeCase) -> Outcome {
    let points = case.points();
    let c = &case.cuboid;
    let sides = c.sides();
    let content: Vec<root::Named> = points.iter().enumerate().map(|(name, p)| root::Named { name, position: vector(*p) }).collect();
    let tree: Tree = root::tree(case.depth, case.per_leaf, content, &c.extent());
    let mut found = vec![];
    walk(&tree, case, 0, &mut found)?;
    ensure_eq!(names(found.iter().map(|f| f.name)), (0..points.len()).collect::<Vec<_>>(), "particles in the tree");
    ensure!(found.iter().all(|f| f.position.value_unchecked() == points[f.name]), "a particle has moved");
    ensure_eq!(names(tree.iter().map(|f| f.name)), (0..points.len()).collect::<Vec<_>>(), "particles seen by iteration");
    let mut count = 0;
    tree.depth_first_map_leaf(&mut |_, l| count += l.len());
    ensure_eq!(count, points.len(), "particles seen in leaves");
    let box_ = SimulationBox::new(c.extent());
    let mut hits = 0;
    for (centre, radius) in &case.searches {
        let centre = c.min() + DVec3::from(*centre) * sides;
        let radius = radius * sides.min_element();
        let found = names(tree.iter_particles_in_radius(&box_, vector(centre), Length::new_unchecked(radius)).map(|f| f.name));
        for (i, p) in points.iter().enumerate() {
            let d = (*p - centre).abs();
            let d = d.min(sides - d).length();
            let times = found.iter().filter(|f| **f == i).count();
            ensure!(times < 2, "a search finds a particle twice");
            if (d - radius).abs() > 100.0 * c.rounding(*p) {
                ensure_eq!(times == 1, d < radius, "a search within {radius:e} of {centre} for {p} at distance {d:e}");
            }
            hits += times;
        }
    }
    Ok(if hits > 0 && root::children(&tree).is_ok() { "hits in a divided tree" } else { "" }.into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(200_000, 3_000_000);
    ctx.stage(
        "box",
        "cuboids of 1e-3-1e22 m anywhere, up to 10 points in and around them, on faces, edges and middles or within rounding of them; non-trivial: a point outside of the box",
        n,
        (cuboid(), prop::collection::vec(point(), 0..10)).prop_map(|(cuboid, points)| BoxCase { cuboid, points }),
        box_test,
    );
    let n = ctx.cases(40_000, 600_000);
    ctx.stage(
        "tree",
        "up to 150 particles (anywhere, on a lattice, clustered, at one place), leaves of up to 39, depths of up to 20, up to 7 searches of any radius; non-trivial: a search finds something in a divided tree",
        n,
        tree_case(),
        tree_test,
    );
    ctx.finish()
}
