//! C28: runs that make the grid themselves.
use glam::DVec3;

use super::hook::FaceSpec;
use super::*;
use crate::geometry::{voronoi, Body};
use crate::transport::empty_cell;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConstructCase {
    run: RunCase,
    /// Particles per side of a lattice, how far they are from its points, and more of them anywhere.
    lattice: usize,
    jitter: f64,
    more: Vec<u32>,
    construct: Construct,
}

fn construct_case() -> impl Strategy<Value = ConstructCase> {
    (
        run_case(30),
        4..7usize,
        prop_oneof![2 => Just(0.9), 1 => 0.05..0.9f64],
        prop::collection::vec(any::<u32>(), 0..30),
        prop_oneof![3 => Just(false), 1 => Just(true)],
        prop_oneof![2 => Just(None), 1 => (0.02..0.3f64).prop_map(Some)],
    )
        .prop_map(|(mut run, lattice, jitter, more, periodic, search_radius)| {
            // A small difference must not decide on which photons are lost.
            run.threshold = 0.0;
            run.final_time = run.final_time % 12 + 1;
            if run.sources.is_empty() && run.seed & 12 > 0 {
                run.sources.push((run.seed, 0.0));
            }
            ConstructCase { run, lattice, jitter, more, construct: Construct { periodic, search_radius } }
        })
}

fn unit(name: u32) -> DVec3 {
    DVec3::new(random(name, 0), random(name, 1), random(name, 2))
}

/// The Voronoi cells of the particles and their images, in the unit cube.
fn cells(case: &ConstructCase) -> Vec<CellSpec> {
    let n = case.lattice;
    let mut points: Vec<DVec3> = (0..n * n * n)
        .map(|i| {
            let cell = DVec3::new((i % n) as f64, (i / n % n) as f64, (i / n / n) as f64);
            (cell + 0.5 + (unit(case.run.seed.wrapping_add(i as u32 * 7919)) - 0.5) * case.jitter) / n as f64
        })
        .collect();
    points.extend(case.more.iter().map(|m| unit(*m)));
    let mut images = vec![];
    for (i, p) in points.iter().enumerate() {
        for k in 0..27 {
            let shift = DVec3::new((k % 3) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k / 9) as f64 - 1.0);
            images.push((i, shift, *p + shift));
        }
    }
    points
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let others = images.iter().filter(|(j, s, q)| (*j != i || *s != DVec3::ZERO) && (*q - *p).abs().max_element() < 1.5).map(|(j, s, q)| ((*j, *s), *q - *p)).collect();
            let body = voronoi(Body::cuboid(-DVec3::splat(0.75), DVec3::splat(0.75)), others);
            let mut cell = empty_cell((*p).into(), body.volume());
            for f in &body.faces {
                let (j, s) = f.tag.expect("a bounded cell");
                let link = match (s == DVec3::ZERO, case.construct.periodic) {
                    (true, _) => Link::Cell(j),
                    (false, true) => Link::Periodic(j),
                    (false, false) => Link::Boundary,
                };
                cell.faces.push(FaceSpec { area: f.area(), normal: (points[j] + s - *p).normalize().into(), link });
            }
            cell
        })
        .collect()
}

fn built_case(case: &ConstructCase) -> Outcome {
    let run = &case.run;
    let mut setup = run.setup_of(cells(case));
    for c in &mut setup.cells {
        c.size = (3.0 * c.volume / (4.0 * std::f64::consts::PI)).cbrt();
    }
    setup.construct = Some(case.construct.clone());
    setup.slack = 100.0;
    let mut p = match perform_setup(run, setup, &[], |_, _, _| {}) {
        // Recorded for C20, which also says how often it may happen.
        Err(e) if e.contains("Degenerate case") => return Ok("".into()),
        p => p?,
    };
    let expected = check_schedule(run, &p)?;
    if case.construct.periodic && !run.sources.is_empty() {
        // Light that left the box enters on the other side in the same sweep or in the next one, as the order of cells has it.
        p.moments[1..].iter_mut().for_each(|m| m.certain = false);
        for (s, moment) in p.snapshots.iter().zip(&expected) {
            for (name, d) in &s.data {
                let wrong = d.values.iter().find(|v| !v.is_finite() && name != "ionization_time" || **v < 0.0 && name != "heating_rate");
                ensure!(wrong.is_none(), "snapshot at {:e} s: {name} is {wrong:?}", p.moments[*moment].time);
            }
        }
    }
    let compared = check_states(&p, &expected)?;
    if run.sources.is_empty() || p.moments.len() < 2 || compared == 0 {
        return Ok("".into());
    }
    Ok(format!("{} ranks, {}", run.ranks, if case.construct.periodic { "periodic" } else { "not periodic" }).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(320, 4000);
    ctx.stage(
        "built",
        "runs of the program on 1-4 ranks as in C22, of 64-245 particles whose grid is made by the run, periodic or not; non-trivial: with sources, at least one step, and not ended by the known defect of C20",
        n,
        construct_case(),
        built_case,
    );
    ctx.finish()
}
