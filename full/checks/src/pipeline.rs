//! C19: particles go to the rank that owns their place. C20: the grid of the simulation. C29: Cartesian grids.
use std::collections::{BTreeMap, HashMap};

use bevy_ecs::prelude::{Commands, Entity, Res, With};
use engine::{agree_over_mpi, ensure, ensure_eq, Ctx, Outcome};
use glam::DVec3;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::{Density, Mass, Position, Source};
use subsweep::domain::{DecompositionState, DomainPlugin, IdEntityMap, IntoKey, QuadTree};
use subsweep::parameters::{SimulationBox, SweepParameters};
use subsweep::prelude::{Extent, HaloParticle, LocalParticle, ParallelVoronoiGridConstruction, ParticleId, Simulation, WorldRank, WorldSize};
use subsweep::source_systems::{SourcePlugin, Sources};
use subsweep::sweep::grid::{init_cartesian_grid_system, Cell, NumCellsSpec, ParticleType};
use subsweep::units::{Length, SourceRate, VecLength};
use subsweep::verif as root;

use crate::mpiutil::random;
use crate::geometry::{voronoi, Body};
use crate::mpiutil as mu;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    /// log10 of the side length, and the position of the corner in units of it.
    side: f64,
    corner: [f64; 3],
    /// The other sides relative to the first.
    stretch: [f64; 2],
}

impl Place {
    fn sides(&self) -> DVec3 {
        10f64.powf(self.side) * DVec3::new(1.0, self.stretch[0], self.stretch[1])
    }
    fn min(&self) -> DVec3 {
        DVec3::from(self.corner) * 10f64.powf(self.side)
    }
    fn at(&self, unit: DVec3) -> DVec3 {
        let (min, max) = (self.min(), self.min() + self.sides());
        (min + unit * self.sides()).clamp(min, max)
    }
    fn simulation_box(&self) -> SimulationBox {
        SimulationBox::new(Extent::from_min_max(VecLength::new_unchecked(self.min()), VecLength::new_unchecked(self.min() + self.sides())))
    }
    /// The nearest image of b - a.
    fn nearest(&self, a: DVec3, b: DVec3) -> DVec3 {
        let s = self.sides();
        let d = b - a;
        d - (d / s).round() * s
    }
}

fn place(cubic: bool) -> impl Strategy<Value = Place> {
    (
        prop_oneof![2 => Just(0.0), 1 => -3.0..22.0f64],
        prop_oneof![2 => Just([0.0; 3]), 1 => prop::array::uniform3(-2.0..2.0f64)],
        if cubic { Just([1.0, 1.0]).boxed() } else { prop_oneof![1 => Just([1.0, 1.0]), 1 => prop::array::uniform2(0.2..3.0f64)].boxed() },
    )
        .prop_map(|(side, corner, stretch)| Place { side, corner, stretch })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spread {
    Uniform,
    /// Part of the particles within a ball of this radius, per ball.
    Clusters { balls: u8, log_radius: f64, part: f64 },
    Plane,
    /// In one octant at this depth.
    Corner(u8),
    Lattice([u32; 3]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Random(u32),
    /// Everything but one particle per rank is on this rank.
    One(u8),
    Slabs,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DomainCase {
    names: Vec<u32>,
    spread: Spread,
    start: Start,
    place: Place,
    sources: Vec<u32>,
    queries: Vec<u32>,
}

fn spread_case() -> impl Strategy<Value = DomainCase> {
    let spread = prop_oneof![
        3 => Just(Spread::Uniform),
        2 => (1..4u8, -6.0..-0.5f64, prop_oneof![Just(1.0), 0.2..1.0f64]).prop_map(|(balls, log_radius, part)| Spread::Clusters { balls, log_radius, part }),
        1 => Just(Spread::Plane),
        1 => (1..12u8).prop_map(Spread::Corner),
    ];
    let start = prop_oneof![2 => any::<u32>().prop_map(Start::Random), 1 => (0..5u8).prop_map(Start::One), 1 => Just(Start::Slabs)];
    (
        prop::collection::vec(any::<u32>(), 40..300),
        spread,
        start,
        place(false),
        prop::collection::vec(any::<u32>(), 0..6),
        prop::collection::vec(any::<u32>(), 1..12),
    )
        .prop_map(|(names, spread, start, place, sources, queries)| DomainCase { names, spread, start, place, sources, queries })
}

fn unit(name: u32) -> DVec3 {
    DVec3::new(random(name, 0), random(name, 1), random(name, 2))
}

impl DomainCase {
    fn points(&self) -> Vec<DVec3> {
        if let Spread::Lattice(n) = self.spread {
return (0..n[0] * n[1] * n[2]).map(|i| self.place.at((DVec3::new((i / n[2] / n[1]) as f64, (i / n[2] % n[1]) as f64, (i % n[2]) as f64) + 0.5) / DVec3::new(n[0] as f64, n[1] as f64, n[2] as f64))).collect();
        }
        self.names
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let n = &n.wrapping_add(i as u32 * 7919);
                let u = unit(*n);
                let u = match &self.spread {
                    Spread::Uniform => u,
                    Spread::Clusters { balls, log_radius, part } => {
                        if random(*n, 7) < *part {
                            let centre = unit((random(*n, 8) * *balls as f64) as u32 + 17);
                            (centre + (u - 0.5) * 10f64.powf(*log_radius)).rem_euclid_unit()
                        } else {
                            u
                        }
                    }
                    Spread::Plane => DVec3::new(0.3 + 1e-5 * u.x, u.y, u.z),
                    Spread::Corner(depth) => DVec3::ONE - u * 0.5f64.powi(*depth as i32),
                    Spread::Lattice(_) => unreachable!(),
                };
                self.place.at(u)
            })
            .collect()
    }
    fn starts(&self, n: usize, ranks: usize) -> Vec<usize> {
        (0..n)
            .map(|i| {
                if i < ranks {
                    return i;
                }
                match self.start {
                    Start::Random(seed) => (random(seed, i as u32) * ranks as f64) as usize,
                    Start::One(r) => r as usize % ranks,
                    Start::Slabs => i * ranks / n,
                }
            })
            .collect()
    }
    /// Places of sources: anywhere, at particles, at the corners and edges of the box.
    fn source_places(&self, points: &[DVec3]) -> Vec<DVec3> {
        self.sources
            .iter()
            .map(|s| match s % 4 {
                0 => points[(random(*s, 3) * points.len() as f64) as usize],
                1 => {
                    let u = unit(*s);
                    let edge = |x: f64, i: u32| if random(*s, 10 + i) < 0.5 { x.round() } else { x };
                    self.place.at(DVec3::new(edge(u.x, 0), edge(u.y, 1), edge(u.z, 2)))
                }
                2 => self.place.at(unit(*s).round()),
                _ => self.place.at(unit(*s)),
            })
            .collect()
    }
}

/// A simulation with these particles on this rank; their density and mass tell who they are.
fn simulation(place: &Place, points: &[DVec3], start: &[usize], parameters: &str) -> Simulation {
    let (rank, size) = (mu::rank(), mu::size());
    let mut sim = Simulation::default();
    sim.add_plugin(BaseCommunicationPlugin::new(size, rank));
    sim.read_initial_conditions(false).write_output(false);
    sim.insert_non_send_resource(root::Performance::default());
    sim.add_parameter_file_contents(parameters.into());
    sim.add_parameters_explicitly(place.simulation_box());
    sim.add_plugin(DomainPlugin).add_required_component::<Position>().add_required_component::<Density>().add_component_no_io::<Mass>();
    for (i, p) in points.iter().enumerate() {
        if start[i] == rank as usize {
            sim.world().spawn((
                LocalParticle,
                Position(VecLength::new_unchecked(*p)),
                Density(subsweep::units::Density::new_unchecked(i as f64 + 0.5)),
                Mass(subsweep::units::Mass::new_unchecked(-(i as f64))),
            ));
        }
    }
    sim
}

struct Particle {
    entity: Entity,
    id: ParticleId,
    name: usize,
    mass: f64,
    position: DVec3,
}

fn particles(sim: &mut Simulation) -> Result<Vec<Particle>, String> {
    let world = sim.world();
    let mut q = world.query_filtered::<Entity, With<LocalParticle>>();
    let all = q.iter(world).count();
    let mut q = world.query_filtered::<(Entity, &ParticleId, &Density, &Mass, &Position), With<LocalParticle>>();
    let found: Vec<_> = q
        .iter(world)
        .map(|(entity, id, d, m, p)| Particle {
            entity,
            id: *id,
            name: d.value_unchecked() as usize,
            mass: m.value_unchecked(),
            position: p.value_unchecked(),
        })
        .collect();
    if found.len() != all {
        return Err(format!("{} of {all} particles lack a component", all - found.len()));
    }
    Ok(found)
}

fn domain_case(case: &DomainCase, nearest_of_all: bool) -> Outcome {
    let (rank, size) = (mu::rank(), mu::size());
    let points = case.points();
    let n = points.len();
    let start = case.starts(n, size);
    let source_places = case.source_places(&points);
    let mut sim = simulation(&case.place, &points, &start, "{}");
    sim.add_plugin(SourcePlugin).add_event::<subsweep::source_systems::TotalLuminosity>();
    // Each source is known to one rank only.
    let sources = source_places
        .iter()
        .enumerate()
        .filter(|(i, _)| (i * 7 + case.names.len()) % size == rank as usize)
        .map(|(i, p)| subsweep::source_systems::Source { pos: VecLength::new_unchecked(*p), rate: SourceRate::new_unchecked((1u64 << (8 * i)) as f64) })
        .collect();
    sim.add_parameters_explicitly(Sources { sources });
    let mut q = sim.world().query_filtered::<Entity, With<LocalParticle>>();
    let entities: Vec<_> = q.iter(sim.world()).collect();
    for e in entities {
        sim.world().entity_mut(e).insert(Source(SourceRate::new_unchecked(0.0)));
    }
    sim.add_component_no_io::<Source>();
    sim.update();

    let mine = particles(&mut sim);
    let list: Vec<f64> = mine.as_ref().map(|m| m.iter().map(|p| p.name as f64).collect()).unwrap_or_default();
    let everyone = mu::gather(&list);
    let box_ = case.place.simulation_box();
    let decomposition = sim.unwrap_resource::<DecompositionState>();
    let probes: Vec<DVec3> = points
        .iter()
        .copied()
        .chain(case.queries.iter().map(|q| case.place.at(unit(*q))))
        .chain(case.queries.iter().map(|q| case.place.at(unit(*q).round())))
        .chain(source_places.iter().copied())
        .collect();
    let key = |p: DVec3| VecLength::new_unchecked(p).into_key(&*box_);
    let owners: Vec<f64> = probes.iter().map(|p| decomposition.get_owning_rank(key(*p)) as f64).collect();
    let all_owners = mu::gather(&owners);
    let sources_here: Vec<(usize, f64)> = {
        let world = sim.world();
        let mut q = world.query_filtered::<(&Density, &Source), With<LocalParticle>>();
        q.iter(world).map(|(d, s)| (d.value_unchecked() as usize, s.value_unchecked())).filter(|x| x.1 != 0.0).collect()
    };
    let all_sources = mu::gather(&sources_here.iter().flat_map(|x| [x.0 as f64, x.1]).collect::<Vec<_>>());

    // From here on, nothing is collective.
    let mine = mine?;
    for (r, o) in all_owners.iter().enumerate() {
        ensure!(*o == owners, "ranks {r} and {rank} disagree on who owns a place");
    }
    for (i, o) in owners.iter().enumerate() {
        ensure!(*o >= 0.0 && (*o as usize) < size, "the place {} belongs to rank {o} of {size}", probes[i]);
    }
    let mut sorted: Vec<_> = probes.iter().zip(&owners).map(|(p, o)| (key(*p), *o)).collect();
    sorted.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.total_cmp(&b.1)));
    for w in sorted.windows(2) {
        ensure!(w[0].1 <= w[1].1, "the places of rank {} are not one part of the curve", w[1].1);
    }
    let mut seen: Vec<usize> = everyone.iter().flatten().map(|x| *x as usize).collect();
    seen.sort();
    ensure_eq!(seen, (0..n).collect::<Vec<_>>(), "particles after the exchange");
    for p in &mine {
        ensure_eq!(p.position.to_array(), points[p.name].to_array(), "position of particle {}", p.name);
        ensure_eq!(p.mass, -(p.name as f64), "mass of particle {}", p.name);
        ensure_eq!(owners[p.name] as i32, rank, "owner of particle {}, which is on this rank", p.name);
    }
    // Ids.
    let mut index: Vec<u32> = mine.iter().map(|p| p.id.index).collect();
    index.sort();
    ensure_eq!(index, (0..mine.len() as u32).collect::<Vec<_>>(), "indices of the particles");
    let map = sim.unwrap_resource::<IdEntityMap>();
    for p in &mine {
        ensure_eq!(p.id.rank, rank, "rank of the id of particle {}", p.name);
        ensure!(map.get_by_left(&p.id) == Some(&p.entity), "particle {} is not found by its id", p.name);
    }
    // Balance: the cuts of the curve are between particles, so that rank gets one or two particles too many or few.
    let mut keys: Vec<_> = points.iter().map(|p| key(*p)).collect();
    keys.sort();
    let close = keys.windows(2).filter(|w| w[1].0 - w[0].0 < 1 << 40).count();
    let (small, large) = (everyone.iter().map(|e| e.len()).min().unwrap(), everyone.iter().map(|e| e.len()).max().unwrap());
    if close == 0 {
        ensure!(large - small <= 3 + size, "{} particles are divided into {:?}", n, everyone.iter().map(|e| e.len()).collect::<Vec<_>>());
    }
    // The tree and searches.
    let tree = sim.unwrap_resource::<QuadTree>();
    let mut ids: Vec<_> = tree.iter().map(|l| l.id.index).collect();
    ids.sort();
    ensure_eq!(ids, index, "particles in the tree");
    let by_name: HashMap<usize, &Particle> = mine.iter().map(|p| (p.name, p)).collect();
    let side = case.place.sides().min_element();
    let mut hits = 0;
    for q in &case.queries {
        let centre = case.place.min() + case.place.sides() * (unit(*q) * 1.98 - 0.49);
        let radius = side * if q % 3 == 0 { 0.5 * random(*q, 5).powi(3) } else { 0.5 * random(*q, 5) };
        let found: Vec<u32> = tree
            .iter_particles_in_radius(&box_, VecLength::new_unchecked(centre), Length::new_unchecked(radius))
            .map(|l| l.id.index)
            .collect();
        let mut count: BTreeMap<u32, usize> = BTreeMap::new();
        for f in &found {
            *count.entry(*f).or_default() += 1;
        }
        ensure!(count.values().all(|c| *c == 1), "a search finds a particle twice");
        for (i, p) in points.iter().enumerate() {
            let d = case.place.nearest(centre, *p).length();
            if (d - radius).abs() < 1e-9 * case.place.sides().max_element() * (1.0 + DVec3::from(case.place.corner).abs().max_element()) {
                continue;
            }
            if let Some(p) = by_name.get(&i) {
                ensure_eq!(count.contains_key(&p.id.index), d < radius, "a search within {radius:e} of {centre} finds a particle at distance {d:e}");
                hits += (d < radius) as usize;
            }
            if d < radius {
                let owner = owners[i] as i32;
                ensure!(
                    decomposition_reaches(&sim, owner, centre, radius, &box_),
                    "rank {owner} is not asked for its particle at distance {d:e} of {centre}, within {radius:e}"
                );
            }
        }
    }
    // Sources: each is in one particle of the rank that owns its place, the nearest one there.
    let mut expected: BTreeMap<usize, f64> = BTreeMap::new();
    let mut far = String::new();
    for (i, s) in source_places.iter().enumerate() {
        let owner = owners[points.len() + 2 * case.queries.len() + i];
        let nearest = everyone[owner as usize]
            .iter()
            .map(|x| *x as usize)
            .min_by(|a, b| s.distance(points[*a]).total_cmp(&s.distance(points[*b])))
            .unwrap();
        let d = s.distance(points[nearest]);
        // Equally close.
        let rate = (1u64 << (8 * i)) as f64;
        let at = all_sources
            .iter()
            .flat_map(|l| l.chunks(2))
            .filter(|c| (c[1] as u64 / rate as u64) % 256 != 0)
            .map(|c| c[0] as usize)
            .collect::<Vec<_>>();
        ensure!(at.len() == 1, "source {i} at {s} is in the particles {at:?}");
        ensure!(s.distance(points[at[0]]) <= d * (1.0 + 1e-9), "source {i} at {s} is in particle {}, but {nearest} is closer", at[0]);
        *expected.entry(at[0]).or_default() += rate;
        let best = (0..n).min_by(|a, b| s.distance(points[*a]).total_cmp(&s.distance(points[*b]))).unwrap();
        if s.distance(points[best]) < d * (1.0 - 1e-9) {
            far = "a source is put into the nearest particle of the rank that owns its place although one of another rank is closer".into();
        }
    }
    let got: BTreeMap<usize, f64> = all_sources.iter().flat_map(|l| l.chunks(2)).map(|c| (c[0] as usize, c[1])).collect();
    ensure_eq!(got, expected, "source terms");
    if nearest_of_all {
        ensure!(far.is_empty(), "{far}");
    }
    Ok(if hits > 0 && !case.sources.is_empty() { "searches and sources" } else if hits > 0 { "searches" } else { "" }.into())
}

fn decomposition_reaches(sim: &Simulation, rank: i32, centre: DVec3, radius: f64, box_: &SimulationBox) -> bool {
    let extent = root::Extent::<DVec3>::cube_around_sphere(centre, radius);
    sim.unwrap_resource::<DecompositionState>().rank_owns_part_of_search_radius(rank, &extent, box_)
}

// ------------------------------------------------------------------------------------ grid

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GridCase {
    /// Lattice with displacements, and further particles in clusters.
    side: usize,
    jitter: f64,
    seed: u32,
    extra: Vec<u32>,
    log_radius: f64,
    start: Start,
    place: Place,
    periodic: bool,
    search_radius: Option<f64>,
}

fn grid_case() -> impl Strategy<Value = GridCase> {
    (
        5..7usize,
        prop_oneof![2 => Just(0.9), 1 => 0.01..0.9f64],
        any::<u32>(),
        prop::collection::vec(any::<u32>(), 0..60),
        -3.0..-0.5f64,
        prop_oneof![any::<u32>().prop_map(Start::Random), (0..5u8).prop_map(Start::One), Just(Start::Slabs)],
        place(true),
        any::<bool>(),
        prop_oneof![2 => Just(None), 1 => (0.02..0.3f64).prop_map(Some)],
    )
        .prop_map(|(side, jitter, seed, extra, log_radius, start, place, periodic, search_radius)| GridCase {
            side,
            jitter,
            seed,
            extra,
            log_radius,
            start,
            place,
            periodic,
            search_radius,
        })
}

impl GridCase {
    fn points(&self) -> Vec<DVec3> {
        let n = self.side;
        let mut points = vec![];
        for i in 0..n * n * n {
            let cell = DVec3::new((i % n) as f64, (i / n % n) as f64, (i / n / n) as f64);
            let u = unit(self.seed.wrapping_add(i as u32 * 7919));
            points.push(self.place.at((cell + 0.5 + (u - 0.5) * self.jitter) / n as f64));
        }
        for e in &self.extra {
            let centre = unit(self.seed.wrapping_add((random(*e, 4) * 3.0) as u32));
            let u = (centre + (unit(*e) - 0.5) * 10f64.powf(self.log_radius)).rem_euclid_unit();
            points.push(self.place.at(u));
        }
        points
    }
}

trait Wrap {
    fn rem_euclid_unit(self) -> Self;
}
impl Wrap for DVec3 {
    fn rem_euclid_unit(self) -> Self {
        self - self.floor()
    }
}

fn shift(t: &subsweep::dimension::ActiveWrapType, sides: DVec3) -> DVec3 {
    let sign = |text: String| match text.as_str() {
        "-" => -1.0,
        "+" => 1.0,
        _ => 0.0,
    };
    DVec3::new(sign(format!("{:?}", t.x)), sign(format!("{:?}", t.y)), sign(format!("{:?}", t.z))) * sides
}

fn grid_test(case: &GridCase) -> Outcome {
    let (rank, size) = (mu::rank(), mu::size());
    let points = case.points();
    let n = points.len();
    let domain = DomainCase {
        names: vec![],
        spread: Spread::Uniform,
        start: case.start.clone(),
        place: case.place.clone(),
        sources: vec![],
        queries: vec![],
    };
    let start = domain.starts(n, size);
    let sides = case.place.sides();
    let parameters = format!(
        "sweep:\n  directions: 1\n  num_timestep_levels: 1\n  periodic: {}\n  max_timestep: 1 s\ngrid:\n  initial_search_radius: {}\n",
        case.periodic,
        case.search_radius.map(|r| format!("{:e} m", r * sides.x)).unwrap_or("~".into())
    );
    let mut sim = simulation(&case.place, &points, &start, &parameters);
    sim.add_parameter_type::<SweepParameters>();
    sim.add_plugin(ParallelVoronoiGridConstruction);
    sim.update();
    let mine = particles(&mut sim);
    // Names of the particles of all ranks, in the order of their ids.
    let mut order: Vec<&Particle> = mine.as_ref().map(|m| m.iter().collect()).unwrap_or_default();
    order.sort_by_key(|p| p.id.index);
    let names = mu::gather(&order.iter().map(|p| p.name as f64).collect::<Vec<_>>());
    let name_of = |id: &ParticleId| names.get(id.rank as usize).and_then(|l| l.get(id.index as usize)).map(|x| *x as usize).ok_or_else(|| format!("no particle {id:?}"));

    let world = sim.world();
    let mut q = world.query_filtered::<(&Density, &Cell, &ParticleId), With<LocalParticle>>();
    let cells: Vec<(usize, Cell, ParticleId)> = q.iter(world).map(|(d, c, i)| (d.value_unchecked() as usize, c.clone(), *i)).collect();
    let mut q = world.query_filtered::<(&HaloParticle, &ParticleId, &Position), ()>();
    let haloes: Vec<(i32, ParticleId, DVec3)> = q.iter(world).map(|(h, i, p)| (h.rank, *i, p.value_unchecked())).collect();
    let mine = mine?;
    ensure_eq!(cells.len(), mine.len(), "cells of the particles");
    let scale = sides.x;
    let mut images: Vec<(usize, DVec3, DVec3)> = vec![];
    for (i, p) in points.iter().enumerate() {
        for k in 0..27 {
            let s = DVec3::new((k % 3) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k / 9) as f64 - 1.0);
            images.push((i, s, *p + s * sides));
        }
    }
    let mut remote = vec![];
    let tolerance = 1e-7 * (1.0 + DVec3::from(case.place.corner).abs().max_element());
    for (name, cell, id) in &cells {
        let p = points[*name];
        let around = Body::cuboid(-sides * 0.75, sides * 0.75);
        let others = images.iter().filter(|(i, s, q)| (i != name || *s != DVec3::ZERO) && (*q - p).abs().max_element() < 1.5 * scale).map(|(i, s, q)| ((*i, *s), *q - p)).collect();
        let expected = voronoi(around, others);
        let volume = expected.volume();
        ensure!((cell.volume.value_unchecked() - volume).abs() <= tolerance * scale.powi(3) / n as f64 + 1e-6 * volume, "cell {name} has the volume {:e}, expected {volume:e}", cell.volume.value_unchecked());
        let size = (3.0 * volume / (4.0 * std::f64::consts::PI)).cbrt();
        ensure!((cell.size.value_unchecked() / size - 1.0).abs() < 1e-4, "cell {name} has the size {:e}, expected {size:e}", cell.size.value_unchecked());
        let mut areas: HashMap<(usize, [i8; 3]), f64> = HashMap::new();
        let mut boundary = 0.0;
        for f in &expected.faces {
            let Some((i, s)) = f.tag else { return Err(format!("cell {name} is not bounded")) };
            let s8 = [s.x as i8, s.y as i8, s.z as i8];
            if s8 != [0; 3] && !case.periodic {
                boundary += f.area();
            } else {
                areas.insert((i, s8), f.area());
            }
        }
        let limit = 1e-6 * scale * scale * tolerance.max(1e-7) * 1e7 / (n as f64).powf(2.0 / 3.0);
        let mut sum = DVec3::ZERO;
        for (face, neighbour) in &cell.neighbours {
            let area = face.area.value_unchecked();
            let normal = face.normal.value_unchecked();
            sum += normal * area;
            ensure!((normal.length() - 1.0).abs() < 1e-9, "a normal has the length {}", normal.length());
            let (other, s) = match neighbour {
                ParticleType::Boundary => {
                    ensure!(!case.periodic, "cell {name} has a boundary in a periodic box");
                    boundary -= area;
                    continue;
                }
                ParticleType::Local(i) => {
                    ensure_eq!(i.rank, rank, "rank of a local neighbour");
                    (name_of(i)?, DVec3::ZERO)
                }
                ParticleType::Remote(r) => {
                    ensure!(r.rank == r.id.rank && r.rank != rank, "remote neighbour {r:?}");
                    remote.push(r.id);
                    (name_of(&r.id)?, DVec3::ZERO)
                }
                ParticleType::LocalPeriodic(l) => {
                    ensure_eq!(l.id.rank, rank, "rank of a local neighbour");
                    (name_of(&l.id)?, shift(&l.periodic_wrap_type, DVec3::ONE))
                }
                ParticleType::RemotePeriodic(r) => {
                    ensure!(r.rank == r.id.rank && r.rank != rank, "remote neighbour {r:?}");
                    remote.push(r.id);
                    (name_of(&r.id)?, shift(&r.periodic_wrap_type, DVec3::ONE))
                }
            };
            let is_periodic = matches!(neighbour, ParticleType::LocalPeriodic(_) | ParticleType::RemotePeriodic(_));
            ensure!(is_periodic == (s != DVec3::ZERO), "neighbour {neighbour:?} of cell {name}");
            ensure!(!is_periodic || case.periodic, "a periodic neighbour in a box that is not");
            let direction = points[other] + s * sides - p;
            if area > limit {
                ensure!(
                    (normal - direction.normalize()).length() < 1e-6,
                    "the face of cell {name} to {other} has the normal {normal}, expected {}", direction.normalize()
                );
            }
            let expected = areas.remove(&(other, [s.x as i8, s.y as i8, s.z as i8])).unwrap_or(0.0);
            ensure!((area - expected).abs() <= limit + 1e-6 * expected, "the face of cell {name} (particle {id:?}) to {other} ({neighbour:?}) has the area {area:e}, expected {expected:e}");
        }
        for (k, a) in areas {
            ensure!(a <= limit, "cell {name} has no face to {k:?}, of area {a:e}");
        }
        ensure!(boundary.abs() <= 10.0 * limit + 1e-6 * scale * scale / (n as f64).powf(2.0 / 3.0), "faces of cell {name} to the boundary lack {boundary:e}");
        ensure!(sum.length() <= 30.0 * limit, "cell {name} is not closed: {sum}");
    }
    // Haloes: one for each remote neighbour at least, at its place or that of an image.
    for id in &remote {
        ensure!(haloes.iter().any(|h| h.1 == *id), "no halo for {id:?}");
    }
    for (r, id, p) in &haloes {
        ensure!(*r == id.rank && *r != rank, "halo of rank {r} for {id:?}");
        let d = case.place.nearest(points[name_of(id)?], *p).length();
        ensure!(d < tolerance * scale, "halo for {id:?} at {p}, not at {}", points[name_of(id)?]);
    }
    Ok(format!("{}{}", if case.periodic { "periodic" } else { "not periodic" }, if size > 1 { ", several ranks" } else { "" }).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(1500, 30_000);
    ctx.stage_agreeing(
        "domain",
        "40-300 particles (uniform, clustered down to 1e-6 of the box, in a plane, in a corner), any first distribution over the ranks, box 1e-3-1e22 m anywhere, up to 5 sources (at particles, corners, edges, anywhere) and 11 searches; non-trivial: a search finds particles",
        n,
        spread_case(),
        |c: &DomainCase| domain_case(c, false),
        agree_over_mpi,
        true,
    );
    if mu::size() > 1 {
        ctx.stage_agreeing(
            "nearest",
            "the same; sources are put into the nearest of all particles",
            200,
            spread_case(),
            |c: &DomainCase| domain_case(c, true),
            agree_over_mpi,
            true,
        );
    } else {
        ctx.stage(
            "lattice",
            "a lattice of up to 12x12x12 particles and a source; non-trivial: more than one particle",
            100,
            (prop::array::uniform3(1..13u32), any::<u32>(), place(true)),
            |(side, source, place): &([u32; 3], u32, Place)| {
                let case = DomainCase { names: vec![], spread: Spread::Lattice(*side), start: Start::Slabs, place: place.clone(), sources: vec![source / 4 * 4 + 3], queries: vec![] };
                domain_case(&case, true)?;
                Ok((*side != [1; 3]).into())
            },
        );
    }
    mu::finish(ctx)
}

pub fn run_grid(mut ctx: Ctx) {
    let n = ctx.cases(70, 3000);
    ctx.stage_agreeing(
        "grid",
        "125-276 particles (displaced lattice and clusters), any first distribution over the ranks, cubic box of 1e-3-1e22 m anywhere, periodic or not, given or default first search radius; non-trivial: all",
        n,
        grid_case(),
        grid_test,
        agree_over_mpi,
        true,
    );
    mu::finish(ctx)
}

// ------------------------------------------------------------------------------------ Cartesian

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CartesianCase {
    cells: [u32; 3],
    size: f64,
    /// The size is the side of the box divided by the number of cells, not the other way round.
    divided: bool,
    periodic: bool,
}

fn cartesian_case() -> impl Strategy<Value = CartesianCase> {
    let number = || prop_oneof![4 => 1..8u32, 1 => Just(1u32)];
    (
        prop_oneof![4 => [number(), number(), number()], 1 => (1..200u32, 1..3u32, 1..3u32).prop_map(|(a, b, c)| [a, b, c]), 1 => (1..3u32, 1..3u32, 1..200u32).prop_map(|(a, b, c)| [a, b, c])],
        prop_oneof![2 => (1..20u32).prop_map(|n| n as f64 / 10.0), 1 => Just(1.0), 2 => (-3.0..22.0f64).prop_map(|x| 10f64.powf(x))],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(cells, size, divided, periodic)| CartesianCase { cells, size, divided, periodic })
}

fn cartesian_test(case: &CartesianCase) -> Outcome {
    let (rank, ranks) = (mu::rank(), mu::size());
    let n = case.cells;
    let (size, sides) = if case.divided {
        // By the first side; the others are as close as can be.
        let side = case.size;
        let size = side / n[0] as f64;
        (size, DVec3::new(side, size * n[1] as f64, size * n[2] as f64))
    } else {
        (case.size, case.size * DVec3::new(n[0] as f64, n[1] as f64, n[2] as f64))
    };
    let mut sim = Simulation::default();
    sim.add_plugin(BaseCommunicationPlugin::new(ranks, rank));
    sim.insert_non_send_resource(root::Performance::default());
    sim.insert_resource(SimulationBox::new(Extent::from_min_max(VecLength::zero(), VecLength::new_unchecked(sides))));
    let periodic = case.periodic;
    sim.add_startup_system(move |commands: Commands, box_size: Res<SimulationBox>, world_size: Res<WorldSize>, world_rank: Res<WorldRank>| {
        init_cartesian_grid_system(commands, box_size, NumCellsSpec::CellSize(Length::new_unchecked(size)), world_size, world_rank, periodic)
    });
    sim.update();
    let world = sim.world();
    let mut q = world.query_filtered::<(&Position, &Cell, &ParticleId), With<LocalParticle>>();
    let cells: Vec<(DVec3, Cell, ParticleId)> = q.iter(world).map(|(p, c, i)| (p.value_unchecked(), c.clone(), *i)).collect();
    let mut q = world.query_filtered::<(&HaloParticle, &ParticleId, &Position), ()>();
    let haloes: Vec<(i32, ParticleId, DVec3)> = q.iter(world).map(|(h, i, p)| (h.rank, *i, p.value_unchecked())).collect();
    let mine: Vec<f64> = cells.iter().flat_map(|(p, _, id)| [id.rank as f64, id.index as f64, p.x, p.y, p.z]).collect();
    let all = mu::gather(&mine);
    // Positions are those of a lattice with the right number of points, wherever its origin is.
    let total = n.iter().map(|x| *x as usize).product::<usize>();
    let list: Vec<(usize, ParticleId, DVec3)> = all
        .iter()
        .enumerate()
        .flat_map(|(r, l)| l.chunks(5).map(move |c| (r, ParticleId { rank: c[0] as i32, index: c[1] as u32 }, DVec3::new(c[2], c[3], c[4]))))
        .collect();
    ensure_eq!(list.len(), total, "number of cells");
    let origin = list.iter().map(|l| l.2).fold(DVec3::splat(f64::INFINITY), DVec3::min);
    ensure!(origin.cmpge(-DVec3::splat(1e-9 * size)).all() && origin.cmplt(DVec3::splat(size)).all(), "the first cell is at {origin}");
    let index = |p: DVec3| -> Result<[i64; 3], String> {
        let i = (p - origin) / size;
        ensure!((i - i.round()).abs().max_element() < 1e-6, "a cell at {p}, which is not on the lattice");
        Ok([i.x.round() as i64, i.y.round() as i64, i.z.round() as i64])
    };
    let mut at: BTreeMap<[i64; 3], (usize, ParticleId)> = BTreeMap::new();
    let mut of: HashMap<(i32, u32), [i64; 3]> = HashMap::new();
    for (r, id, p) in &list {
        ensure_eq!(id.rank as usize, *r, "rank in the id of a cell");
        let i = index(*p)?;
        ensure!((0..3).all(|k| i[k] >= 0 && i[k] < n[k] as i64), "a cell at {i:?} of {n:?}");
        ensure!(at.insert(i, (*r, *id)).is_none(), "two cells at {i:?}");
        ensure!(of.insert((id.rank, id.index), i).is_none(), "two cells with the id {id:?}");
    }
    // Layers in x belong to ranks in order, about equally many to each.
    let owner: Vec<usize> = (0..n[0] as i64).map(|x| at[&[x, 0, 0]].0).collect();
    for (i, (r, _)) in &at {
        ensure_eq!(*r, owner[i[0] as usize], "rank of the cell at {i:?} of {n:?}");
    }
    ensure!(owner.windows(2).all(|w| w[0] <= w[1]), "ranks of layers {owner:?}");
    for r in 0..ranks {
        let layers = owner.iter().filter(|o| **o == r).count() as f64;
        ensure!((layers - n[0] as f64 / ranks as f64).abs() < 2.0, "{layers} of {} layers on rank {r} of {ranks}", n[0]);
    }
    let mut remote = vec![];
    for (p, cell, id) in &cells {
        let i = index(*p)?;
        ensure!((cell.size.value_unchecked() / size - 1.0).abs() < 1e-6 && (cell.volume.value_unchecked() / size.powi(3) - 1.0).abs() < 1e-6, "size {:?} and volume {:?} of cell {i:?}", cell.size, cell.volume);
        ensure_eq!(cell.neighbours.len(), 6, "faces of cell {i:?}");
        let mut seen = vec![];
        for (face, neighbour) in &cell.neighbours {
            ensure!((face.area.value_unchecked() / (size * size) - 1.0).abs() < 1e-6, "area {:?} of a face of {i:?}", face.area);
            let normal = face.normal.value_unchecked();
            let step = [normal.x.round() as i64, normal.y.round() as i64, normal.z.round() as i64];
            ensure!((normal - normal.round()).length() < 1e-6 && step.iter().map(|s| s.abs()).sum::<i64>() == 1, "normal {normal} of a face of {i:?}");
            ensure!(!seen.contains(&step), "two faces of {i:?} in direction {step:?}");
            seen.push(step);
            let to = [0, 1, 2].map(|k| i[k] + step[k]);
            let wrapped = [0, 1, 2].map(|k| to[k].rem_euclid(n[k] as i64));
            let inside = to == wrapped;
            let (r, expected) = at[&wrapped];
            let local = r as i32 == rank;
            let (found, found_rank, is_periodic, is_local, shifted) = match neighbour {
                ParticleType::Boundary => {
                    ensure!(!inside && !case.periodic, "cell {i:?} has a boundary to {to:?}");
                    continue;
                }
                ParticleType::Local(id) => (*id, id.rank, false, true, DVec3::ZERO),
                ParticleType::Remote(x) => (x.id, x.rank, false, false, DVec3::ZERO),
                ParticleType::LocalPeriodic(x) => (x.id, x.id.rank, true, true, shift(&x.periodic_wrap_type, DVec3::ONE)),
                ParticleType::RemotePeriodic(x) => (x.id, x.rank, true, false, shift(&x.periodic_wrap_type, DVec3::ONE)),
            };
            ensure!(inside || case.periodic, "cell {i:?} has a neighbour behind the boundary");
            ensure_eq!((found.rank, found.index), (expected.rank, expected.index), "neighbour of cell {i:?} ({id:?}) at {to:?}");
            ensure!(found_rank == r as i32 && is_local == local && is_periodic == !inside, "neighbour {neighbour:?} of cell {i:?} on rank {rank}");
            if is_periodic {
                let expected = DVec3::new(step[0] as f64, step[1] as f64, step[2] as f64);
                ensure!(shifted == expected, "wrap {shifted} of the neighbour of {i:?} at {to:?}");
            }
            if !is_local {
                remote.push(found);
            }
        }
    }
    for id in &remote {
        ensure!(haloes.iter().any(|h| h.1 == *id), "no halo for {id:?}");
    }
    for (r, id, p) in &haloes {
        ensure!(*r == id.rank && *r != rank, "halo of rank {r} for {id:?}");
        ensure!(remote.contains(id), "a halo for {id:?}, which is no neighbour");
        ensure_eq!(of.get(&(id.rank, id.index)), Some(&index(*p)?), "place of the halo for {id:?}");
    }
    if total == 1 {
        return Ok("".into());
    }
    Ok(format!("{}{}", if case.periodic { "periodic" } else { "not periodic" }, if owner[0] < owner[n[0] as usize - 1] { ", cells on several ranks" } else { "" }).into())
}

pub fn run_cartesian(mut ctx: Ctx) {
    let n = ctx.cases(6000, 120_000);
    ctx.stage_agreeing(
        "cartesian",
        "grids of 1-7 cells per side, or 1-199 on one side, of 1e-3-1e22 m, decimal fractions among them, periodic or not, size given as the side by the number of cells or the other way round; non-trivial: more than one cell",
        n,
        cartesian_case(),
        cartesian_test,
        agree_over_mpi,
        true,
    );
    mu::finish(ctx)
}
