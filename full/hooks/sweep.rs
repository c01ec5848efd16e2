#[cfg(feature = "hook_sweep")]
pub mod verif {
    //! A sweep over any list of cells and any assignment of them to ranks, as plain data in SI units.
    use super::direction::Directions;
    use super::grid::Cell;
    use super::grid::Face;
    use super::grid::ParticleType;
    use super::grid::PeriodicNeighbour;
    use super::grid::RemoteNeighbour;
    use super::grid::RemotePeriodicNeighbour;
    use super::site::Site;
    use super::timestep_level::TimestepLevel;
    use super::timestep_state::TimestepState;
    use super::DirectionsSpecification;
    use super::Sweep;
    use super::SweepParameters;
    use crate::chemistry::hydrogen_only::HydrogenOnly;
    use crate::chemistry::hydrogen_only::HydrogenOnlySpecies;
    use crate::chemistry::timescale::Timescale;
    use crate::chemistry::Chemistry;
    use crate::communication::Rank;
    use crate::hash_map::HashMap;
    use crate::hash_map::HashSet;
    use crate::particle::ParticleId;
    use crate::performance::Performance;
    use crate::simulation_box::PeriodicWrapType3d;
    use crate::simulation_box::WrapType;
    use crate::units::Area;
    use crate::units::Density;
    use crate::units::Dimensionless;
    use crate::units::Length;
    use crate::units::MVec;
    use crate::units::Mass;
    use crate::units::PhotonRate;
    use crate::units::Temperature;
    use crate::units::Time;
    use crate::units::Volume;

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Link {
        Boundary,
        Cell(usize),
        Periodic(usize),
    }

    #[derive(Clone, Debug)]
    pub struct FaceSpec {
        pub area: f64,
        pub normal: [f64; 3],
        pub link: Link,
    }

    #[derive(Clone, Debug)]
    pub struct CellSpec {
        pub center: [f64; 3],
        pub volume: f64,
        pub size: f64,
        pub faces: Vec<FaceSpec>,
        pub owner: Rank,
        pub source: f64,
        pub density: f64,
        pub fraction: f64,
        pub temperature: f64,
    }

    #[derive(Clone, Debug)]
    pub struct Parameters {
        pub directions: Vec<[f64; 3]>,
        pub levels: usize,
        pub max_timestep: f64,
        pub safety: f64,
        pub chemistry_safety: f64,
        pub threshold: f64,
        pub batch: usize,
        pub check_deadlock: bool,
        pub prevent_cooling: bool,
        pub scale_factor: f64,
    }

    #[derive(Clone, Debug)]
    pub struct State {
        pub incoming: Vec<f64>,
        pub outgoing: Vec<f64>,
        pub periodic: Vec<f64>,
        pub level: usize,
        /// Timestep and rate of every update of the chemistry so far (only `Scripted`).
        pub updates: Vec<(f64, f64)>,
        pub fraction: f64,
        pub temperature: f64,
        pub timescale: f64,
    }

    /// Transmission and timescale follow a script: functions of the cell and its number of updates.
    pub struct Scripted {
        pub transmission: Box<dyn Fn(usize, usize) -> f64>,
        pub timescale: Box<dyn Fn(usize, usize) -> f64>,
    }

    #[derive(Debug)]
    pub struct ScriptedSpecies {
        cell: usize,
        updates: Vec<(f64, f64)>,
    }

    impl Chemistry for Scripted {
        type Photons = PhotonRate;
        type Species = ScriptedSpecies;

        fn get_outgoing_rate(&self, _: &Cell, site: &Site<Self>, incoming: PhotonRate) -> PhotonRate {
            incoming * (self.transmission)(site.species.cell, site.species.updates.len())
        }

        fn update_abundances(&self, site: &mut Site<Self>, rate: PhotonRate, timestep: Time, _: Volume, _: Length) -> Timescale {
            let t = (self.timescale)(site.species.cell, site.species.updates.len());
            site.species.updates.push((timestep.in_seconds(), rate.in_photons_per_second()));
            Timescale::temperature(Time::seconds(t))
        }
    }

    pub trait Observable: Chemistry {
        fn species(&self, index: usize, cell: &CellSpec) -> Self::Species;
        fn observe(site: &Site<Self>) -> (Vec<(f64, f64)>, f64, f64);
    }

    impl Observable for Scripted {
        fn species(&self, index: usize, _: &CellSpec) -> ScriptedSpecies {
            ScriptedSpecies { cell: index, updates: vec![] }
        }
        fn observe(site: &Site<Self>) -> (Vec<(f64, f64)>, f64, f64) {
            (site.species.updates.clone(), 0.0, 0.0)
        }
    }

    impl Observable for HydrogenOnly {
        fn species(&self, _: usize, cell: &CellSpec) -> HydrogenOnlySpecies {
            HydrogenOnlySpecies::new(Dimensionless::dimensionless(cell.fraction), Temperature::kelvins(cell.temperature))
        }
        fn observe(site: &Site<Self>) -> (Vec<(f64, f64)>, f64, f64) {
            (
                vec![],
                site.species.ionized_hydrogen_fraction.value(),
                site.species.temperature.in_kelvins(),
            )
        }
    }

    fn ids(cells: &[CellSpec]) -> Vec<ParticleId> {
        let mut next: HashMap<Rank, u32> = HashMap::default();
        cells
            .iter()
            .map(|c| {
                let index = next.entry(c.owner).or_insert(0);
                let id = ParticleId { index: *index, rank: c.owner };
                *index += 1;
                id
            })
            .collect()
    }

    fn cell(spec: &CellSpec, ids: &[ParticleId]) -> Cell {
        let wrap = PeriodicWrapType3d {
            x: WrapType::Plus,
            y: WrapType::NoWrap,
            z: WrapType::NoWrap,
        };
        Cell {
            size: Length::meters(spec.size),
            volume: Volume::cubic_meters(spec.volume),
            neighbours: spec
                .faces
                .iter()
                .map(|f| {
                    let n = f.normal;
                    let face = Face {
                        area: Area::square_meters(f.area),
                        normal: MVec::new(n[0], n[1], n[2]) * Dimensionless::dimensionless(1.0),
                    };
                    let local = |i: usize| ids[i].rank == spec.owner;
                    let neighbour = match f.link {
                        Link::Boundary => ParticleType::Boundary,
                        Link::Cell(i) if local(i) => ParticleType::Local(ids[i]),
                        Link::Cell(i) => ParticleType::Remote(RemoteNeighbour { id: ids[i], rank: ids[i].rank }),
                        Link::Periodic(i) if local(i) => ParticleType::LocalPeriodic(PeriodicNeighbour {
                            id: ids[i],
                            periodic_wrap_type: wrap,
                        }),
                        Link::Periodic(i) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour {
                            id: ids[i],
                            rank: ids[i].rank,
                            periodic_wrap_type: wrap,
                        }),
                    };
                    (face, neighbour)
                })
                .collect(),
        }
    }

    pub struct AnySweep<C: Observable> {
        sweep: Sweep<C>,
        /// Number of the cell and its id.
        local: Vec<(usize, ParticleId)>,
        performance: Performance,
    }

    impl<C: Observable<Photons = PhotonRate>> AnySweep<C> {
        /// With one of the predefined sets of directions.
        pub fn with_directions(cells: &[CellSpec], p: &Parameters, directions: usize, chemistry: C, world_size: usize, rank: Rank) -> Self {
            Self::with(cells, p, DirectionsSpecification::Num(directions), chemistry, world_size, rank)
        }

        pub fn new(cells: &[CellSpec], p: &Parameters, chemistry: C, world_size: usize, rank: Rank) -> Self {
            let spec = DirectionsSpecification::Explicit(
                p.directions
                    .iter()
                    .map(|d| MVec::new(d[0], d[1], d[2]) * Dimensionless::dimensionless(1.0))
                    .collect(),
            );
            Self::with(cells, p, spec, chemistry, world_size, rank)
        }

        fn with(cells: &[CellSpec], p: &Parameters, spec: DirectionsSpecification, chemistry: C, world_size: usize, rank: Rank) -> Self {
            let ids = ids(cells);
            let directions: Directions = (&spec).into();
            let local: Vec<_> = ids.iter().copied().enumerate().filter(|(_, id)| id.rank == rank).collect();
            let parameters = SweepParameters {
                directions: spec,
                num_timestep_levels: p.levels,
                periodic: true,
                max_timestep: Time::seconds(p.max_timestep),
                rotate_directions: false,
                significant_rate_threshold: PhotonRate::photons_per_second(p.threshold),
                timestep_safety_factor: Dimensionless::dimensionless(p.safety),
                chemistry_timestep_safety_factor: Dimensionless::dimensionless(p.chemistry_safety),
                check_deadlock: p.check_deadlock,
                prevent_cooling: p.prevent_cooling,
                num_tasks_to_solve_before_send_receive: p.batch,
            };
            let haloes: HashSet<ParticleId> = local
                .iter()
                .flat_map(|(i, _)| &cells[*i].faces)
                .filter_map(|f| match f.link {
                    Link::Cell(j) | Link::Periodic(j) if ids[j].rank != rank => Some(ids[j]),
                    _ => None,
                })
                .collect();
            let sites = local
                .iter()
                .map(|(i, id)| {
                    let c = &cells[*i];
                    let site = Site::new(
                        &directions,
                        chemistry.species(*i, c),
                        Mass::kilograms(c.density) / Volume::cubic_meters(1.0),
                        PhotonRate::photons_per_second(c.source),
                    );
                    (*id, site)
                })
                .collect();
            let sweep = Sweep::new(
                directions,
                local.iter().map(|(i, id)| (*id, cell(&cells[*i], &ids))).collect(),
                sites,
                haloes.into_iter().collect(),
                parameters.max_timestep,
                parameters.timestep_safety_factor,
                &parameters,
                world_size,
                rank,
                chemistry,
            );
            AnySweep { sweep, local, performance: Performance::default() }
        }

        /// One full step; returns the time it took.
        pub fn step(&mut self) -> f64 {
            self.sweep.run_sweeps(&mut self.performance).in_seconds()
        }

        /// Cells of this rank, and what is known about them.
        pub fn states(&self) -> Vec<(usize, State)> {
            self.local
                .iter()
                .map(|(i, id)| {
                    let site = self.sweep.sites.get(*id);
                    let flat = |v: &[PhotonRate]| v.iter().map(|r| r.in_photons_per_second()).collect::<Vec<f64>>();
                    let (updates, fraction, temperature) = C::observe(site);
                    let level = self.sweep.sites.get_level(*id);
                    assert_eq!(level, self.sweep.cells.get_level(*id));
                    (
                        *i,
                        State {
                            incoming: flat(&site.incoming_total_rate),
                            outgoing: flat(&site.outgoing_total_rate),
                            periodic: flat(&site.periodic_source),
                            level: level.0,
                            updates,
                            fraction,
                            temperature,
                            timescale: site.change_timescale.in_seconds(),
                        },
                    )
                })
                .collect()
        }
    }

    pub fn hydrogen(p: &Parameters) -> HydrogenOnly {
        HydrogenOnly {
            rate_threshold: PhotonRate::photons_per_second(p.threshold),
            scale_factor: Dimensionless::dimensionless(p.scale_factor),
            timestep_safety_factor: Dimensionless::dimensionless(p.chemistry_safety),
            prevent_cooling: p.prevent_cooling,
        }
    }

    pub use crate::chemistry::hydrogen_only::HydrogenOnly as Hydrogen;

    fn check_density(d: Density) -> f64 {
        d.in_grams_per_cubic_centimeters()
    }

    /// The schedule of `steps` full steps: the levels swept, and the time of each step.
    pub fn schedule(levels: usize, max_timestep: f64, steps: usize) -> Vec<(Vec<usize>, f64)> {
        let mut state = TimestepState::new(Time::seconds(max_timestep), levels);
        (0..steps)
            .map(|_| {
                let result = (
                    state.iter_levels_in_sweep_order().map(|l| l.0).collect(),
                    state.current_max_timestep().in_seconds(),
                );
                state.advance_allowed_levels();
                result
            })
            .collect()
    }

    /// Level for a desired timestep.
    pub fn level(levels: usize, max_timestep: f64, desired: f64) -> (usize, f64) {
        let level = TimestepLevel::from_max_timestep_and_desired_timestep(
            levels,
            Time::seconds(max_timestep),
            Time::seconds(desired),
        );
        (level.0, level.to_timestep(Time::seconds(max_timestep)).in_seconds())
    }

    fn plain(d: Directions) -> Vec<[f64; 3]> {
        d.enumerate().map(|(_, d)| [d.x().value(), d.y().value(), d.z().value()]).collect()
    }

    /// The directions of a list in the parameters.
    pub fn directions_explicit(list: &[[f64; 3]]) -> Vec<[f64; 3]> {
        let list = list.iter().map(|d| MVec::new(d[0], d[1], d[2]) * Dimensionless::dimensionless(1.0));
        plain((&DirectionsSpecification::Explicit(list.collect())).into())
    }

    /// The directions of a number in the parameters.
    pub fn directions_number(n: usize) -> Vec<[f64; 3]> {
        plain((&DirectionsSpecification::Num(n)).into())
    }

    pub fn density_unit() -> f64 {
        check_density(Mass::kilograms(1.0) / Volume::cubic_meters(1.0))
    }
}
