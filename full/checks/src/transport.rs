//! C15: the sweep solves the transport problem, however the cells are spread over the ranks.
//! C16: the hierarchy of timesteps.
use engine::{agree_over_mpi, ensure, ensure_eq, Ctx, Outcome};
use glam::DVec3;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::sweep_verif as hook;
use subsweep::sweep_verif::{AnySweep, CellSpec, FaceSpec, Link, Parameters, Scripted, State};

use crate::mpiutil::random;
use crate::geometry::{voronoi, Body};
use crate::mpiutil as mu;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Grid {
    /// Widths of the columns in each direction (as names of random numbers).
    Tensor { widths: [Vec<u32>; 3], periodic: bool },
    Voronoi { names: Vec<u32>, sides: [f64; 3] },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Owner {
    Random(u32),
    Slabs(u8),
    Blocks,
}

pub fn grid() -> impl Strategy<Value = Grid> {
    let column = || prop::collection::vec(any::<u32>(), 1..5);
    prop_oneof![
        (column(), column(), column(), any::<bool>()).prop_map(|(x, y, z, periodic)| Grid::Tensor { widths: [x, y, z], periodic }),
        (prop::collection::vec(any::<u32>(), 5..30), prop::array::uniform3(prop_oneof![2 => Just(1.0), 1 => 0.3..3.0f64]))
            .prop_map(|(names, sides)| Grid::Voronoi { names, sides }),
    ]
}

pub fn owner() -> impl Strategy<Value = Owner> {
    prop_oneof![any::<u32>().prop_map(Owner::Random), (0..3u8).prop_map(Owner::Slabs), Just(Owner::Blocks)]
}

pub fn empty_cell(center: [f64; 3], volume: f64) -> CellSpec {
    CellSpec { center, volume, size: volume.cbrt(), faces: vec![], owner: 0, source: 0.0, density: 1e-22, fraction: 0.1, temperature: 1e4 }
}

impl Grid {
    pub fn is_periodic(&self) -> bool {
        matches!(self, Grid::Tensor { periodic: true, .. })
    }

    pub fn cells(&self) -> Vec<CellSpec> {
        match self {
            Grid::Tensor { widths, periodic } => {
                let w: Vec<Vec<f64>> = widths.iter().map(|c| c.iter().map(|n| 0.5 + random(*n, 0)).collect()).collect();
                let n: Vec<usize> = w.iter().map(|c| c.len()).collect();
                let index = |i: [usize; 3]| (i[0] * n[1] + i[1]) * n[2] + i[2];
                let mut cells = vec![];
                for x in 0..n[0] {
                    for y in 0..n[1] {
                        for z in 0..n[2] {
                            let at = [x, y, z];
                            let center = [0, 1, 2].map(|k| w[k][..at[k]].iter().sum::<f64>() + 0.5 * w[k][at[k]]);
                            let mut cell = empty_cell(center, (0..3).map(|k| w[k][at[k]]).product());
                            for k in 0..3 {
                                for up in [false, true] {
                                    let mut normal = [0.0; 3];
                                    normal[k] = if up { 1.0 } else { -1.0 };
                                    let mut other = at;
                                    let inside = if up { at[k] + 1 < n[k] } else { at[k] > 0 };
                                    other[k] = (at[k] + if up { 1 } else { n[k] - 1 }) % n[k];
                                    let link = match (inside, periodic) {
                                        (true, _) => Link::Cell(index(other)),
                                        (false, true) => Link::Periodic(index(other)),
                                        (false, false) => Link::Boundary,
                                    };
                                    cell.faces.push(FaceSpec { area: cell.volume / w[k][at[k]], normal, link });
                                }
                            }
                            cells.push(cell);
                        }
                    }
                }
                cells
            }
            Grid::Voronoi { names, sides } => {
                let mut names = names.clone();
                names.sort();
                names.dedup();
                let s = DVec3::from(*sides);
                let points: Vec<DVec3> = names.iter().map(|n| DVec3::new(random(*n, 0), random(*n, 1), random(*n, 2)) * s).collect();
                let bodies: Vec<Body<usize>> = points
                    .iter()
                    .enumerate()
                    .map(|(i, p)| {
                        let others = points.iter().enumerate().filter(|(j, _)| *j != i).map(|(j, q)| (j, *q - *p)).collect();
                        voronoi(Body::cuboid(-*p, s - *p), others)
                    })
                    .collect();
                let area = |i: usize, j: usize| bodies[i].faces.iter().filter(|f| f.tag == Some(j)).map(|f| f.area()).sum::<f64>();
                (0..points.len())
                    .map(|i| {
                        let mut cell = empty_cell(points[i].into(), bodies[i].volume());
                        for f in &bodies[i].faces {
                            match f.tag {
                                Some(j) => {
                                    if area(i, j) > 1e-7 && area(j, i) > 1e-7 {
                                        cell.faces.push(FaceSpec { area: f.area(), normal: (points[j] - points[i]).normalize().into(), link: Link::Cell(j) });
                                    }
                                }
                                None => {
                                    let mid = f.polygon.iter().copied().sum::<DVec3>() / f.polygon.len() as f64;
                                    let p = (mid + points[i]) / s;
                                    // The wall it lies on.
                                    let (k, v) = (0..3).map(|k| (k, p[k])).min_by(|a, b| (a.1.min(1.0 - a.1)).abs().total_cmp(&(b.1.min(1.0 - b.1)).abs())).unwrap();
                                    let mut normal = [0.0; 3];
                                    normal[k] = if v > 0.5 { 1.0 } else { -1.0 };
                                    cell.faces.push(FaceSpec { area: f.area(), normal, link: Link::Boundary });
                                }
                            }
                        }
                        cell
                    })
                    .collect()
            }
        }
    }
}

/// Every rank gets at least one cell (as long as there are enough).
pub fn assign(cells: &mut [CellSpec], owner: &Owner, ranks: usize) {
    let n = cells.len();
    let mut order: Vec<usize> = (0..n).collect();
    match owner {
        Owner::Random(seed) => order.sort_by(|a, b| random(*a as u32 ^ *seed, 5).total_cmp(&random(*b as u32 ^ *seed, 5))),
        Owner::Slabs(k) => {
            let k = *k as usize;
            order.sort_by(|a, b| cells[*a].center[k].total_cmp(&cells[*b].center[k]))
        }
        Owner::Blocks => {}
    }
    for (place, i) in order.iter().enumerate() {
        cells[*i].owner = match owner {
            Owner::Random(_) => place % ranks,
            _ => place * ranks / n,
        } as i32;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Direction {
    Random(u32),
    Axis(u8, bool),
    Plane(u8, u32),
}

pub fn direction() -> impl Strategy<Value = Direction> {
    prop_oneof![
        4 => any::<u32>().prop_map(Direction::Random),
        1 => (0..3u8, any::<bool>()).prop_map(|(a, b)| Direction::Axis(a, b)),
        1 => (0..3u8, any::<u32>()).prop_map(|(a, b)| Direction::Plane(a, b)),
    ]
}

impl Direction {
    pub fn vector(&self) -> [f64; 3] {
        let ball = |n: u32| {
            let mut v = DVec3::ZERO;
            for i in 0..1000 {
                v = DVec3::new(random(n, 3 * i + 1), random(n, 3 * i + 2), random(n, 3 * i + 3)) * 2.0 - 1.0;
                if v.length() < 1.0 && v.length() > 0.1 {
                    break;
                }
            }
            v
        };
        match self {
            Direction::Random(n) => ball(*n).into(),
            Direction::Axis(k, up) => {
                let mut v = [0.0; 3];
                v[*k as usize] = if *up { 2.0 } else { -1.0 };
                v
            }
            Direction::Plane(k, n) => {
                let mut v: [f64; 3] = ball(*n).into();
                v[*k as usize] = 0.0;
                if v.iter().all(|x| *x == 0.0) { [1.0, 0.0, 0.0] } else { v }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    grid: Grid,
    owner: Owner,
    directions: Vec<Direction>,
    levels: usize,
    steps: usize,
    batch: usize,
    seed: u32,
    /// Part of the cells that are sources.
    sources: f64,
    /// Whether changes of the rate limit the timestep.
    rate_criterion: bool,
    check_deadlock: bool,
    safety: f64,
    max_timestep: f64,
}

fn case() -> impl Strategy<Value = Case> {
    (
        (grid(), owner(), prop::collection::vec(direction(), 1..6)),
        (1..5usize, 1..8usize, prop_oneof![Just(0usize), Just(1), Just(3), Just(10000)], any::<u32>()),
        (prop_oneof![Just(0.1), Just(0.5), Just(1.0)], any::<bool>(), prop::bool::weighted(0.1)),
        (prop_oneof![Just(0.1), Just(1.0)], prop_oneof![Just(1.0), Just(3e13)]),
    )
        .prop_map(|((grid, owner, directions), (levels, steps, batch, seed), (sources, rate_criterion, check_deadlock), (safety, max_timestep))| Case {
            grid,
            owner,
            directions,
            levels,
            steps,
            batch,
            seed,
            sources: if rate_criterion { 1.0 } else { sources },
            rate_criterion,
            check_deadlock,
            safety,
            max_timestep,
        })
}

impl Case {
    fn cells(&self, ranks: usize) -> Vec<CellSpec> {
        let mut cells = self.grid.cells();
        assign(&mut cells, &self.owner, ranks);
        for (i, c) in cells.iter_mut().enumerate() {
            let name = self.seed ^ (i as u32);
            if random(name, 20) < self.sources {
                c.source = 10f64.powf(3.0 * random(name, 21));
            }
        }
        cells
    }

    fn parameters(&self) -> Parameters {
        Parameters {
            directions: self.directions.iter().map(|d| d.vector()).collect(),
            levels: self.levels,
            max_timestep: self.max_timestep,
            safety: self.safety,
            chemistry_safety: self.safety,
            threshold: if self.rate_criterion { 0.0 } else { 1e30 },
            batch: self.batch,
            check_deadlock: self.check_deadlock,
            prevent_cooling: false,
            scale_factor: 1.0,
        }
    }

    fn transmission(&self) -> impl Fn(usize, usize) -> f64 + 'static {
        let seed = self.seed;
        move |cell, n| {
            let u = random(seed ^ cell as u32, 100 + n as u32);
            if u < 0.05 {
                0.0
            } else if u < 0.15 {
                1.0
            } else {
                u
            }
        }
    }

    fn timescale(&self) -> impl Fn(usize, usize) -> f64 + 'static {
        let (seed, levels, scale) = (self.seed, self.levels, self.max_timestep / self.safety);
        move |cell, n| scale * 2f64.powf(1.0 - (levels as f64 + 1.0) * random(seed ^ cell as u32, 3_000_000 + n as u32))
    }
}

/// For every cell and direction the downwind (to, share) lists, without and with periodic links, and the order of cells.
pub struct Flow {
    pub plain: Vec<Vec<Vec<(usize, f64)>>>,
    pub periodic: Vec<Vec<Vec<(usize, f64)>>>,
    pub escape: Vec<Vec<f64>>,
    pub order: Vec<Vec<usize>>,
}

impl Flow {
    pub fn new(cells: &[CellSpec], directions: &[[f64; 3]]) -> Flow {
        let mut flow = Flow { plain: vec![], periodic: vec![], escape: vec![], order: vec![] };
        for d in directions {
            let d = DVec3::from(*d).normalize();
            let (mut plain, mut periodic, mut escape) = (vec![], vec![], vec![]);
            for c in cells {
                let through: Vec<(f64, Link)> =
                    c.faces.iter().map(|f| (f.area * DVec3::from(f.normal).dot(d), f.link)).filter(|(a, _)| *a > 0.0).collect();
                let total: f64 = through.iter().map(|t| t.0).sum();
                plain.push(through.iter().filter_map(|(a, l)| if let Link::Cell(j) = l { Some((*j, a / total)) } else { None }).collect());
                periodic.push(through.iter().filter_map(|(a, l)| if let Link::Periodic(j) = l { Some((*j, a / total)) } else { None }).collect());
                escape.push(through.iter().filter(|t| t.1 == Link::Boundary).map(|(a, _)| a / total).sum());
            }
            let mut order: Vec<usize> = (0..cells.len()).collect();
            order.sort_by(|a, b| DVec3::from(cells[*a].center).dot(d).total_cmp(&DVec3::from(cells[*b].center).dot(d)));
            flow.plain.push(plain);
            flow.periodic.push(periodic);
            flow.escape.push(escape);
            flow.order.push(order);
        }
        flow
    }

    /// What arrives, given what leaves.
    pub fn arriving(links: &[Vec<(usize, f64)>], outgoing: impl Fn(usize) -> f64) -> Vec<f64> {
        let mut result = vec![0.0; links.len()];
        for (i, l) in links.iter().enumerate() {
            for (j, share) in l {
                result[*j] += share * outgoing(i);
            }
        }
        result
    }
}

/// Levels swept in a full step with this lowest allowed level: those that are due at each of the shortest timesteps.
pub fn due(lowest: usize, levels: usize) -> Vec<usize> {
    let substeps = 1usize << (levels - 1 - lowest);
    (0..substeps).map(|i| (lowest..levels).find(|l| i % (1 << (levels - 1 - l)) == 0).unwrap()).collect()
}

/// Collects the states of all ranks after each step, in the order of the cells.
pub fn gather_states(history: &[(f64, Vec<(usize, State)>)], cells: usize, dirs: usize) -> Vec<(Vec<f64>, Vec<State>)> {
    let mut flat = vec![];
    for (time, states) in history {
        flat.push(*time);
        flat.push(states.len() as f64);
        for (i, s) in states {
            flat.push(*i as f64);
            flat.push(s.level as f64);
            flat.extend([s.fraction, s.temperature, s.timescale]);
            flat.extend(s.incoming.iter().chain(&s.outgoing).chain(&s.periodic));
            flat.push(s.updates.len() as f64);
            flat.extend(s.updates.iter().flat_map(|u| [u.0, u.1]));
        }
    }
    let mut all: Vec<_> = mu::gather(&flat).into_iter().map(|v| v.into_iter()).collect();
    history
        .iter()
        .map(|_| {
            let mut times = vec![];
            let mut states: Vec<Option<State>> = vec![None; cells];
            for v in &mut all {
                times.push(v.next().unwrap());
                for _ in 0..v.next().unwrap() as usize {
                    let i = v.next().unwrap() as usize;
                    let level = v.next().unwrap() as usize;
                    let (fraction, temperature, timescale) = (v.next().unwrap(), v.next().unwrap(), v.next().unwrap());
                    let (incoming, outgoing, periodic) = {
                        let mut take = || v.by_ref().take(dirs).collect::<Vec<_>>();
                        (take(), take(), take())
                    };
                    let n = v.next().unwrap() as usize;
                    let updates = (0..n).map(|_| (v.next().unwrap(), v.next().unwrap())).collect();
                    assert!(states[i].is_none(), "cell {i} is on two ranks");
                    states[i] = Some(State { incoming, outgoing, periodic, level, updates, fraction, temperature, timescale });
                }
            }
            (times, states.into_iter().map(|s| s.expect("cell on no rank")).collect())
        })
        .collect()
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * scale + 1e-9 * b.abs()
}

fn run_case(case: &Case) -> Outcome {
    let ranks = mu::size();
    let cells = case.cells(ranks);
    if cells.len() < ranks {
        return Ok("".into());
    }
    let p = case.parameters();
    let chemistry = Scripted { transmission: Box::new(case.transmission()), timescale: Box::new(case.timescale()) };
    let mut sweep = AnySweep::new(&cells, &p, chemistry, ranks, mu::rank());
    let mut history = vec![];
    for _ in 0..case.steps {
        let time = sweep.step();
        history.push((time, sweep.states()));
    }
    drop(sweep);
    compare(case, &cells, &p, gather_states(&history, cells.len(), p.directions.len()))
}

fn compare(case: &Case, cells: &[CellSpec], p: &Parameters, observed: Vec<(Vec<f64>, Vec<State>)>) -> Outcome {
    let n = cells.len();
    let dirs = p.directions.len();
    let flow = Flow::new(cells, &p.directions);
    let (transmission, script) = (case.transmission(), case.timescale());
    let total: f64 = cells.iter().map(|c| c.source).sum();
    let scale = total * (case.steps * (1 << case.levels)) as f64;
    let periodic = case.grid.is_periodic();
    // Whether what has wrapped around was solved before or after its neighbour depends on the order of
    // tasks if some cells are not active.
    let exact = !periodic || case.levels == 1;
    let mut lowest = case.levels - 1;
    let mut first = true;
    let mut level = vec![case.levels - 1; n];
    let mut incoming = vec![vec![0.0; n]; dirs];
    let mut outgoing = vec![vec![0.0; n]; dirs];
    let mut wrapped = vec![vec![0.0; n]; dirs];
    let mut updates: Vec<Vec<(f64, f64)>> = vec![vec![]; n];
    let mut previous = vec![0.0; n];
    let mut timescale = vec![0.0; n];
    let mut changing = false;
    for (step, (times, states)) in observed.iter().enumerate() {
        let elapsed = case.max_timestep * 0.5f64.powi(lowest as i32);
        for (r, t) in times.iter().enumerate() {
            ensure!(close(*t, elapsed, 0.0), "step {step}: rank {r} reports a time of {t:e}, expected {elapsed:e}");
        }
        for current in due(lowest, case.levels) {
            if !level.iter().any(|l| *l >= current) {
                continue;
            }
            let mut new_wrapped = wrapped.clone();
            for d in 0..dirs {
                for &i in &flow.order[d] {
                    if level[i] < current {
                        continue;
                    }
                    let rate = incoming[d][i] + cells[i].source / dirs as f64 + wrapped[d][i];
                    let out = rate * transmission(i, updates[i].len());
                    let change = out - outgoing[d][i];
                    outgoing[d][i] = out;
                    for (j, share) in &flow.plain[d][i] {
                        incoming[d][*j] += share * change;
                    }
                    for (j, share) in &flow.periodic[d][i] {
                        new_wrapped[d][*j] += share * change;
                    }
                }
            }
            wrapped = new_wrapped;
            for i in 0..n {
                if level[i] < current {
                    continue;
                }
                let timestep = case.max_timestep * 0.5f64.powi(level[i] as i32);
                let rate: f64 = (0..dirs).map(|d| incoming[d][i] + cells[i].source / dirs as f64 + wrapped[d][i]).sum();
                let change = if p.threshold > 0.0 { 0.0 } else { ((rate - previous[i]) / rate).abs().min(1.0 / f64::EPSILON) };
                previous[i] = rate;
                timescale[i] = (timestep / change).min(script(i, updates[i].len()));
                updates[i].push((timestep, rate));
            }
        }
        if !first && lowest > 0 {
            lowest -= 1;
        }
        first = false;
        for (i, s) in states.iter().enumerate() {
            // Time accounting and levels.
            ensure_eq!(s.updates.len(), updates[i].len(), "step {step}: number of updates of cell {i}");
            for (k, (a, b)) in s.updates.iter().zip(&updates[i]).enumerate() {
                ensure!(close(a.0, b.0, 0.0), "step {step}: update {k} of cell {i} is over {:e}, expected {:e}", a.0, b.0);
                if exact {
                    ensure!(close(a.1, b.1, scale), "step {step}: update {k} of cell {i} sees the rate {:e}, expected {:e}", a.1, b.1);
                }
            }
            if !exact && case.rate_criterion {
                // Follow the run.
                level[i] = s.level;
                ensure!(s.level >= lowest && s.level < case.levels, "step {step}: cell {i} is at level {}, lowest allowed: {lowest}", s.level);
            } else {
                let desired = case.safety * timescale[i];
                let l = (case.max_timestep / desired).log2();
                let ambiguous = (l - l.round()).abs() < 1e-6;
                let clamp = |l: f64| (l.max(0.0) as usize).clamp(lowest, case.levels - 1);
                if s.level != clamp(l.ceil()) {
                    ensure!(
                        ambiguous && s.level == clamp(l.round() + if l.ceil() > l.round() { 0.0 } else { 1.0 }),
                        "step {step}: cell {i} is put on level {}, expected {} (timescale {:e})", s.level, clamp(l.ceil()), timescale[i]
                    );
                }
                level[i] = s.level;
            }
        }
        changing |= level.iter().any(|l| *l != level[0]);
        for d in 0..dirs {
            let arriving = Flow::arriving(&flow.plain[d], |i| states[i].outgoing[d]);
            let wrapping = Flow::arriving(&flow.periodic[d], |i| states[i].outgoing[d]);
            for (i, s) in states.iter().enumerate() {
                ensure!(
                    close(s.incoming[d], arriving[i], scale),
                    "step {step}: {:e} arrives in cell {i} in direction {d}, but its neighbours emit {:e} towards it", s.incoming[d], arriving[i]
                );
                ensure!(
                    close(s.periodic[d], wrapping[i], scale),
                    "step {step}: {:e} arrives in cell {i} in direction {d} from across the border, but its neighbours emit {:e} towards it", s.periodic[d], wrapping[i]
                );
                if exact {
                    ensure!(
                        close(s.outgoing[d], outgoing[d][i], scale),
                        "step {step}: {:e} leaves cell {i} in direction {d}, expected {:e}", s.outgoing[d], outgoing[d][i]
                    );
                } else {
                    ensure!(s.outgoing[d].is_finite() && s.outgoing[d] >= -1e-9 * scale, "step {step}: {:e} leaves cell {i}", s.outgoing[d]);
                    outgoing[d][i] = s.outgoing[d];
                    incoming[d][i] = s.incoming[d];
                    wrapped[d][i] = s.periodic[d];
                }
            }
        }
        if !exact {
            for (i, s) in states.iter().enumerate() {
                updates[i] = s.updates.clone();
                previous[i] = s.updates.last().map_or(0.0, |u| u.1);
            }
        }
    }
    if total == 0.0 {
        return Ok("".into());
    }
    Ok(format!(
        "{}{}{}",
        if periodic { "periodic" } else if matches!(case.grid, Grid::Tensor { .. }) { "tensor" } else { "voronoi" },
        if changing { ", several levels" } else { "" },
        if cells.iter().any(|c| c.owner != 0) { ", several ranks" } else { "" }
    )
    .into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(3000, 40_000);
    ctx.stage_agreeing(
        "transport",
        "grids of 1-64 cells (irregular tensor grids, periodic or not, and Voronoi grids), any assignment to ranks, 1-5 directions (also along axes), 1-4 timestep levels, 1-7 steps; non-trivial: as many cells as ranks, and a source",
        n,
        case(),
        run_case,
        agree_over_mpi,
        true,
    );
    run_gas(&mut ctx);
    mu::finish(ctx)
}

// ------------------------------------------------------------------------------------ hydrogen

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gas {
    grid: Grid,
    owner: Owner,
    directions: Vec<Direction>,
    levels: usize,
    steps: usize,
    batch: usize,
    seed: u32,
    sources: f64,
    /// log10 of typical optical depth of a cell, of ionizing photons per atom and timestep.
    depth: f64,
    photons: f64,
    prevent_cooling: bool,
    safety: f64,
}

fn gas() -> impl Strategy<Value = Gas> {
    (
        (grid(), owner(), prop::collection::vec(direction(), 1..5)),
        (1..4usize, 1..5usize, prop_oneof![Just(1usize), Just(10000)], any::<u32>()),
        (prop_oneof![Just(0.1), Just(0.5), Just(1.0)], -2.0..1.0f64, -2.0..1.0f64, any::<bool>(), prop_oneof![Just(0.1), Just(0.5)]),
    )
        .prop_map(|((grid, owner, directions), (levels, steps, batch, seed), (sources, depth, photons, prevent_cooling, safety))| Gas {
            grid,
            owner,
            directions,
            levels,
            steps,
            batch,
            seed,
            sources,
            depth,
            photons,
            prevent_cooling,
            safety,
        })
}

const PROTON_MASS: f64 = 1.67262192369e-27;
/// In square metres.
const SIGMA: f64 = 2.9580524545305314e-22;

fn gas_case(case: &Gas) -> Outcome {
    let ranks = mu::size();
    let mut cells = case.grid.cells();
    if cells.len() < ranks {
        return Ok("".into());
    }
    assign(&mut cells, &case.owner, ranks);
    // About a kiloparsec.
    let unit = 3e19;
    let max_timestep = 3.15576e13;
    let mut total = 0.0;
    for (i, c) in cells.iter_mut().enumerate() {
        let name = case.seed ^ i as u32;
        let density = 10f64.powf(case.depth + random(name, 30) - 0.5) / (SIGMA * unit);
        c.volume *= unit.powi(3);
        c.size *= unit;
        for f in &mut c.faces {
            f.area *= unit * unit;
        }
        c.density = density * PROTON_MASS;
        c.fraction = [1e-10, 1e-3, 0.5, 0.99][(random(name, 31) * 4.0) as usize];
        c.temperature = 10f64.powf(2.0 + 4.0 * random(name, 32));
        if random(name, 33) < case.sources {
            c.source = density * c.volume / max_timestep * 10f64.powf(case.photons + random(name, 34));
        }
        total += c.source;
    }
    let p = Parameters {
        directions: case.directions.iter().map(|d| d.vector()).collect(),
        levels: case.levels,
        max_timestep,
        safety: case.safety,
        chemistry_safety: 0.1,
        threshold: total * 1e-8,
        batch: case.batch,
        check_deadlock: false,
        prevent_cooling: case.prevent_cooling,
        scale_factor: 0.2,
    };
    let dirs = p.directions.len();
    let run = |cells: &[CellSpec]| {
        let mut sweep = AnySweep::new(cells, &p, hook::hydrogen(&p), ranks, mu::rank());
        let mut history = vec![];
        for _ in 0..case.steps {
            let time = sweep.step();
            history.push((time, sweep.states()));
        }
        history
    };
    let shared = run(&cells);
    // Every rank for itself.
    let mut own = cells.clone();
    for c in &mut own {
        c.owner = mu::rank();
    }
    let alone = run(&own);
    let shared = gather_states(&shared, cells.len(), dirs);

    // The first sweep: what leaves a cell is what arrives and is emitted there, less what is absorbed.
    for (i, s) in shared[0].1.iter().enumerate() {
        let c = &cells[i];
        let depth = c.density / PROTON_MASS * (1.0 - c.fraction) * SIGMA * c.size;
        for d in 0..dirs {
            let rate = s.incoming[d] + c.source / dirs as f64;
            // What has come around the border comes in the next sweep.
            let out = if rate < p.threshold * (1.0 - 1e-6) {
                0.0
            } else if rate < p.threshold * (1.0 + 1e-6) {
                continue;
            } else {
                rate * (-depth).exp()
            };
            ensure!(close(s.outgoing[d], out, total), "{:e} leaves cell {i} in direction {d}, expected {out:e} ({rate:e} in, depth {depth:e})", s.outgoing[d]);
        }
    }
    // Independent of the ranks.
    let mut compared = 0;
    'steps: for (step, (times, states)) in shared.iter().enumerate() {
        let (time, single) = &alone[step];
        ensure!(times.iter().all(|t| t == time), "step {step}: times {times:?}, on one rank {time:e}");
        for (i, s) in states.iter().enumerate() {
            let one = &single[i].1;
            let same = |a: f64, b: f64, what: &str| {
                if (a - b).abs() > 1e-6 * b.abs() {
                    return Err(format!("step {step}: {what} of cell {i} is {a:e}, but {b:e} on a single rank"));
                }
                Ok(())
            };
            if !(case.grid.is_periodic() && case.levels > 1) {
                same(s.fraction, one.fraction, "ionized fraction")?;
                same(s.temperature, one.temperature, "temperature")?;
                for d in 0..dirs {
                    ensure!(close(s.incoming[d], one.incoming[d], total), "step {step}: {:e} arrives in cell {i}, but {:e} on a single rank", s.incoming[d], one.incoming[d]);
                }
            }
            ensure!(s.fraction >= 1e-10 && s.fraction <= 1.0 - 1e-10, "step {step}: ionized fraction {:e} of cell {i}", s.fraction);
            ensure!(s.temperature > 0.0 && s.temperature.is_finite(), "step {step}: temperature {:e} of cell {i}", s.temperature);
            if case.prevent_cooling {
                ensure!(s.temperature >= cells[i].temperature && s.fraction >= cells[i].fraction, "step {step}: cell {i} cools or recombines");
            }
        }
        compared += 1;
        for (i, s) in states.iter().enumerate() {
            if s.level != single[i].1.level {
                let l = (max_timestep / (case.safety * s.timescale)).log2();
                ensure!(
                    (l - l.round()).abs() < 1e-4 || case.grid.is_periodic() && case.levels > 1,
                    "step {step}: cell {i} is put on level {}, but on {} on a single rank", s.level, single[i].1.level
                );
                break 'steps;
            }
        }
    }
    if total == 0.0 {
        return Ok("".into());
    }
    Ok(format!("{} of {} steps compared", compared, case.steps).into())
}

pub fn run_gas(ctx: &mut Ctx) {
    let n = ctx.cases(500, 6000);
    ctx.stage_agreeing(
        "hydrogen",
        "the same grids filled with hydrogen (optical depth of a cell 0.003-30, 0.01-100 photons per atom), 1-4 steps; non-trivial: as many cells as ranks, and a source",
        n,
        gas(),
        gas_case,
        agree_over_mpi,
        true,
    );
}

// ----------------------------------------------------------------------------------- timesteps

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Desired {
    levels: usize,
    max_timestep: f64,
    ratio: f64,
}

fn level_case(c: &Desired) -> Outcome {
    let desired = c.max_timestep * c.ratio;
    let (level, timestep) = hook::level(c.levels, c.max_timestep, desired);
    ensure!(level < c.levels, "level {level} of {}", c.levels);
    let expected = c.max_timestep / (1u64 << level) as f64;
    ensure!(close(timestep, expected, 0.0), "a timestep of {timestep:e} at level {level}, expected {expected:e}");
    ensure!(
        timestep <= desired * (1.0 + 1e-9) || level == c.levels - 1,
        "level {level} has a timestep of {timestep:e}, more than the desired {desired:e}, although there are shorter ones"
    );
    ensure!(
        level == 0 || 2.0 * timestep > desired * (1.0 - 1e-9),
        "level {level} has a timestep of {timestep:e}, but twice that would be allowed by {desired:e}"
    );
    Ok(if level > 0 && level < c.levels - 1 { "between" } else { "at the ends" }.into())
}

fn schedule_case((levels, max_timestep, steps): &(usize, f64, usize)) -> Outcome {
    let (levels, steps) = (*levels, *steps);
    let schedule = hook::schedule(levels, *max_timestep, steps);
    let shortest = max_timestep / (1u64 << (levels - 1)) as f64;
    let mut now = 0u64;
    for (step, (order, elapsed)) in schedule.iter().enumerate() {
        let ticks = (elapsed / shortest).round() as u64;
        ensure!(close(*elapsed, ticks as f64 * shortest, 0.0), "step {step} takes {elapsed:e}, not a multiple of {shortest:e}");
        ensure!(ticks.is_power_of_two() && ticks <= 1 << (levels - 1), "step {step} takes {ticks} of the shortest timesteps");
        ensure_eq!(order.len() as u64, ticks, "step {step}: number of sweeps");
        let lowest = levels - 1 - ticks.trailing_zeros() as usize;
        for l in lowest..levels {
            // How often, and when, is level l active?
            let every = 1usize << (levels - 1 - l);
            let active: Vec<usize> = (0..order.len()).filter(|i| order[*i] <= l).collect();
            let expected: Vec<usize> = (0..order.len()).step_by(every).collect();
            ensure_eq!(active, expected, "step {step}: sweeps with level {l} active");
        }
        // A timestep begins only at multiples of its length, from the beginning of the run.
        if levels > 1 {
            ensure!(now % ticks == 0 || ticks == 1, "step {step} of {ticks} ticks begins after {now}");
        }
        now += ticks;
    }
    let full = 1u64 << (levels - 1);
    if steps > levels {
        ensure_eq!((schedule[steps - 1].1 / shortest).round() as u64, full, "length of the last step, in the shortest");
    }
    Ok((levels > 1 && steps > 1).into())
}

pub fn run_timesteps(mut ctx: Ctx) {
    let time = || prop_oneof![Just(1.0), Just(3.15576e13), -5.0..20.0f64].prop_map(|x| if x == 1.0 || x > 20.0 { x } else { 10f64.powf(x) });
    let n = ctx.cases(200_000, 4_000_000);
    ctx.stage(
        "level",
        "maximum timesteps, 1-31 levels and desired timesteps, powers of two and their neighbours included; non-trivial: the level is not clamped",
        n,
        (
            1..32usize,
            time(),
            prop_oneof![
                (-34.0..3.0f64).prop_map(f64::exp2),
                (-33..3i32, -1..2i32).prop_map(|(e, k)| 2f64.powi(e) * (1.0 + k as f64 * 1e-15)),
                Just(0.0),
                Just(1e200),
            ],
        )
            .prop_map(|(levels, max_timestep, ratio)| Desired { levels, max_timestep, ratio }),
        level_case,
    );
    let n = ctx.cases(4000, 40_000);
    ctx.stage(
        "schedule",
        "1-10 levels, 1-24 steps; non-trivial: more than one level and step",
        n,
        (1..11usize, time(), 1..25usize),
        schedule_case,
    );
    ctx.finish()
}
