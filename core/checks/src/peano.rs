//! C01: keys of the space-filling curve.
use engine::{ensure, ensure_eq, Ctx, Outcome};
use glam::{DVec2, DVec3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::verif::{PeanoKey2d, PeanoKey3d};

/// The box is padded by this fraction on either side before the curve is laid into it.
const PADDING: f64 = 0.001;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zoom {
    /// Lower corner in units of the size, and size, per dimension.
    min: [f64; 3],
    size: [f64; 3],
    /// Level of the anchor cell and refinement below it.
    level: u32,
    refine: u32,
    /// Which anchor cell, as a fraction of the grid.
    anchor: [f64; 3],
    /// Position inside the finest cells.
    inside: [f64; 3],
}

/// Bits of a key per dimension: as many as fit into 64 and 128 bits.
fn bits(d: usize) -> u32 {
    if d == 2 { 32 } else { 42 }
}

fn key(d: usize, p: [f64; 3], min: [f64; 3], max: [f64; 3]) -> u128 {
    if d == 2 {
        let v = |a: [f64; 3]| DVec2::new(a[0], a[1]);
        PeanoKey2d::from_point_and_min_max(v(p), v(min), v(max)).0 as u128
    } else {
        let v = |a: [f64; 3]| DVec3::new(a[0], a[1], a[2]);
        PeanoKey3d::from_point_and_min_max(v(p), v(min), v(max)).0
    }
}

/// Compares the library's order of keys with the order of the bare integers.
fn key_order_agrees(d: usize, a: u128, b: u128) -> bool {
    if d == 2 {
        PeanoKey2d(a as u64).cmp(&PeanoKey2d(b as u64)) == a.cmp(&b)
            && PeanoKey2d(a as u64).partial_cmp(&PeanoKey2d(b as u64)) == Some(a.cmp(&b))
    } else {
        PeanoKey3d(a).cmp(&PeanoKey3d(b)) == a.cmp(&b)
            && PeanoKey3d(a).partial_cmp(&PeanoKey3d(b)) == Some(a.cmp(&b))
    }
}

fn size_strategy() -> impl Strategy<Value = f64> {
    prop_oneof![
        Just(1.0),
        0.1..10.0f64,
        (-60i32..60).prop_map(|e| 2f64.powi(e)),
        (-20.0..20.0f64).prop_map(|e| 10f64.powf(e)),
    ]
}

fn box_strategy() -> impl Strategy<Value = ([f64; 3], [f64; 3])> {
    let sizes = prop_oneof![
        size_strategy().prop_map(|s| [s, s, s]),
        (size_strategy(), size_strategy(), size_strategy()).prop_map(|(a, b, c)| [a, b, c]),
    ];
    let min = prop_oneof![Just([0.0; 3]), Just([-0.5; 3]), prop::array::uniform3(-2.0..2.0f64)];
    (min, sizes)
}

fn zoom_strategy(d: usize) -> impl Strategy<Value = Zoom> {
    let bits = bits(d);
    let refine = if d == 2 { 1..=5u32 } else { 1..=3u32 };
    let inside = prop_oneof![Just([0.5; 3]), prop::array::uniform3(0.05..0.95f64)];
    (box_strategy(), refine, 0.0..1.0f64, prop::array::uniform3(0.0..1.0f64), inside).prop_map(
        move |((min, size), refine, depth, anchor, inside)| {
            let level = (depth * (bits - refine) as f64 * 1.02) as u32;
            Zoom { min, size, level: level.min(bits - refine - 1), refine, anchor, inside }
        },
    )
}

impl Zoom {
    fn bounds(&self) -> ([f64; 3], [f64; 3]) {
        let min: [f64; 3] = std::array::from_fn(|i| self.min[i] * self.size[i]);
        let max: [f64; 3] = std::array::from_fn(|i| min[i] + self.size[i]);
        (min, max)
    }

    fn point(&self, fraction: [f64; 3]) -> [f64; 3] {
        let (min, max) = self.bounds();
        std::array::from_fn(|i| {
            let s = max[i] - min[i];
            min[i] + s * (fraction[i] * (1.0 + 2.0 * PADDING) - PADDING)
        })
    }
}

fn zoom(d: usize, c: &Zoom) -> Outcome {
    let bits = bits(d);
    let fine_level = c.level + c.refine;
    let n = 1u64 << c.refine;
    let anchor: [u64; 3] = std::array::from_fn(|i| {
        let cells = 2f64.powi(c.level as i32);
        ((c.anchor[i] * cells) as u64).min((1u64 << c.level) - 1)
    });
    let (min, max) = c.bounds();
    let mut cells: Vec<(u128, [u64; 3])> = vec![];
    let nz = if d == 2 { 1 } else { n };
    let mut complete = true;
    for x in 0..n {
        for y in 0..n {
            for z in 0..nz {
                let cell = [anchor[0] * n + x, anchor[1] * n + y, anchor[2] * n + z];
                let fraction: [f64; 3] = std::array::from_fn(|i| {
                    (cell[i] as f64 + c.inside[i]) / 2f64.powi(fine_level as i32)
                });
                let p = c.point(fraction);
                if (0..d).any(|i| p[i] < min[i] || p[i] > max[i]) {
                    complete = false;
                    continue;
                }
                let k = key(d, p, min, max);
                cells.push((k >> (d as u32 * (bits - fine_level)), cell));
            }
        }
    }
    if cells.len() < 2 {
        return Ok(false.into());
    }
    cells.sort();
    let parent = cells[0].0 >> (d as u32 * c.refine);
    for (k, cell) in &cells {
        ensure!(*k >> (d as u32 * c.refine) == parent,
            "cell {cell:?} of level {fine_level} has prefix {k:x}, not below its ancestor's {parent:x}");
        ensure!(*k >> (d as u32 * fine_level) == 0, "key exceeds {} bits", d as u32 * bits);
    }
    for w in cells.windows(2) {
        ensure!(w[0].0 != w[1].0, "cells {:?} and {:?} of level {fine_level} share the key prefix {:x}", w[0].1, w[1].1, w[0].0);
        ensure!(key_order_agrees(d, w[0].0, w[1].0), "keys {:x} and {:x} are ordered wrongly", w[0].0, w[1].0);
        if w[1].0 == w[0].0 + 1 {
            let distance: u64 = (0..d).map(|i| w[0].1[i].abs_diff(w[1].1[i])).sum();
            ensure_eq!(distance, 1, "consecutive cells {:?} and {:?} of level {fine_level} are not neighbours", w[0].1, w[1].1);
        }
    }
    if complete {
        let expected = (n as u128).pow(d as u32);
        ensure_eq!(cells.last().unwrap().0 - cells[0].0 + 1, expected, "cells of one anchor do not have contiguous prefixes");
    }
    let class = match c.level { 0 => "whole box", 1..=10 => "levels 1-10", 11..=24 => "levels 11-24", _ => "levels above 24" };
    Ok(class.into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edge {
    zoom: Zoom,
    /// Per dimension: 0 lower face, 1 upper face, otherwise inside.
    side: [u8; 3],
    level: u32,
}

/// Points on the faces, edges and corners of the box share the prefix of the cell they are in.
fn edge(d: usize, c: &Edge) -> Outcome {
    let bits = bits(d);
    let (min, max) = c.zoom.bounds();
    let p: [f64; 3] = std::array::from_fn(|i| match c.side[i] {
        0 => min[i],
        1 => max[i],
        _ => min[i] + (max[i] - min[i]) * c.zoom.anchor[i],
    });
    if (0..d).any(|i| p[i] > max[i]) {
        return Ok(false.into());
    }
    let k = key(d, p, min, max);
    ensure!(k >> (d as u32 * bits) == 0, "key of {p:?} exceeds {} bits", d as u32 * bits);
    let cells = 2f64.powi(c.level as i32);
    let mut center = [0.0; 3];
    for i in 0..d {
        let f = ((p[i] - min[i]) / (max[i] - min[i]) + PADDING) / (1.0 + 2.0 * PADDING) * cells;
        if (f - f.round()).abs() < 1e-6 {
            return Ok(false.into());
        }
        center[i] = (f.floor() + 0.5) / cells;
    }
    let k2 = key(d, c.zoom.point(center), min, max);
    let shift = d as u32 * (bits - c.level);
    ensure_eq!(k >> shift, k2 >> shift, "a point on the edge of the box does not share the prefix of its cell at level {}", c.level);
    Ok((0..d).any(|i| c.side[i] < 2).into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    zoom: Zoom,
    other: [f64; 3],
    distance: f64,
    exponent: i32,
}

/// Distinct keys for distinct points; keys do not change when everything is scaled.
fn pair(d: usize, c: &Pair) -> Outcome {
    let bits = bits(d);
    let (min, max) = c.zoom.bounds();
    let at = |f: [f64; 3]| -> [f64; 3] { std::array::from_fn(|i| min[i] + (max[i] - min[i]) * f[i].clamp(0.0, 1.0)) };
    let f1 = c.zoom.anchor;
    let f2: [f64; 3] = std::array::from_fn(|i| f1[i] + (c.other[i] - f1[i]) * c.distance);
    let (a, b) = (at(f1), at(f2));
    let (ka, kb) = (key(d, a, min, max), key(d, b, min, max));
    let resolution = 2f64.powi(-(bits as i32));
    let apart = (0..d).map(|i| ((a[i] - b[i]) / (max[i] - min[i])).abs()).fold(0.0, f64::max);
    if apart > 2.5 * resolution {
        ensure!(ka != kb, "points {:?} and {:?} ({} of the box apart) have the same key {ka:x}", a, b, apart);
    }
    if a[..d] == b[..d] {
        ensure!(ka == kb, "the same point has two keys");
    }
    let s = 2f64.powi(c.exponent);
    let scale = |a: [f64; 3]| a.map(|x| x * s);
    ensure_eq!(key(d, scale(a), scale(min), scale(max)), ka, "scaling everything by {s} changes the key");
    Ok((apart > 2.5 * resolution).into())
}

pub fn run(mut ctx: Ctx) {
    for d in [3usize, 2] {
        let n = ctx.cases(4_000, 120_000);
        ctx.stage(
            &format!("refinement_{d}d"),
            "box, anchor cell of any level, all sub-cells 1-5 levels below it; non-trivial: at least two sub-cells inside the box",
            n, zoom_strategy(d), |c| zoom(d, c));
        let n = ctx.cases(100_000, 2_000_000);
        ctx.stage(
            &format!("edges_{d}d"),
            "points on faces, edges and corners of boxes; non-trivial: at least one coordinate on a face, prefix comparable",
            n,
            (zoom_strategy(d), prop::array::uniform3(0..4u8), 1..9u32).prop_map(|(zoom, side, level)| Edge { zoom, side, level }),
            |c| edge(d, c));
        let n = ctx.cases(100_000, 2_000_000);
        let distance = prop_oneof![Just(1.0), (0.0..45.0f64).prop_map(|e| 2f64.powf(-e))];
        ctx.stage(
            &format!("pairs_{d}d"),
            "pairs of points at log-uniform distance in arbitrary boxes; non-trivial: further apart than 2.5 key cells",
            n,
            (zoom_strategy(d), prop::array::uniform3(0.0..1.0f64), distance, -40..40i32)
                .prop_map(|(zoom, other, distance, exponent)| Pair { zoom, other, distance, exponent }),
            |c| pair(d, c));
    }
    ctx.finish()
}
