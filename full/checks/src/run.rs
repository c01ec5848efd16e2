//! C22, C23, C26: whole runs of the program itself, from input files to snapshots.
mod bpass;
pub mod construct;
pub mod output;
pub mod remap;
pub mod stars;

use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use engine::{ensure, ensure_eq, Ctx, Outcome};
use hdf5::File;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::chemistry_verif::{rates, Gas};
use subsweep::sweep_verif::{self as hook, AnySweep, CellSpec, Link, Parameters, State};

use crate::mpiutil::random;
use crate::transport::{direction, Direction, Grid};

const PROTON_MASS: f64 = 1.67262192369e-27;
const BOLTZMANN: f64 = 1.380649e-23;
const SIGMA: f64 = 2.9580524545305314e-22;
const GAMMA: f64 = 5.0 / 3.0;
const KPC: f64 = 3.0857e19;
const YEAR: f64 = 3.15576e7;

/// The environment this process was started with (before MPI adds to it).
static ENVIRONMENT: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Universe {
    a: f64,
    h: f64,
    omega_0: Option<f64>,
}

impl Universe {
    fn hubble(&self) -> f64 {
        self.h * 3.2407789e-18
    }
    /// Age of a flat universe.
    fn age(&self, a: f64) -> f64 {
        let o = self.omega_0.unwrap();
        let l = 1.0 - o;
        2.0 / (3.0 * l.sqrt()) * ((l / o).sqrt() * a.powf(1.5)).asinh() / self.hubble()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dirs {
    Num(usize),
    Explicit(Vec<Direction>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RunCase {
    ranks: usize,
    seed: u32,
    names: Vec<u32>,
    universe: Option<Universe>,
    /// Powers of a and h in the units of coordinates, density, energy, masses, areas.
    scalings: Vec<(i32, i32)>,
    /// log10 of the units.
    units: Vec<f64>,
    /// Relative sizes of the input files; 0: has none of the datasets.
    files: Vec<u32>,
    folder: bool,
    comoving_box: bool,
    fraction: Option<f64>,
    dirs: Dirs,
    levels: usize,
    safety: f64,
    prevent_cooling: bool,
    batch: Option<usize>,
    threshold: f64,
    sources: Vec<(u32, f64)>,
    /// log10 of the optical depth of the box.
    depth: f64,
    junk: Vec<u32>,
    /// In eighths of the maximum timestep.
    final_time: u32,
    interval: Option<u32>,
    first: Option<u32>,
    output_files: Option<usize>,
    padding: Option<usize>,
    fields: Option<u32>,
    overrides: bool,
}

fn universe() -> impl Strategy<Value = Option<Universe>> {
    prop_oneof![
        1 => Just(None),
        2 => (prop_oneof![4 => 0.05..0.9f64, 1 => 0.9..1.1f64, 1 => Just(1.0), 1 => (-6.0..-3.0f64).prop_map(|x| 1.0 - 10f64.powf(x))], 0.5..0.8f64, prop_oneof![1 => Just(None), 3 => (0.1..0.6f64).prop_map(Some)]).prop_map(|(a, h, omega_0)| Some(Universe { a, h, omega_0 })),
    ]
}

fn run_case(max_cells: usize) -> impl Strategy<Value = RunCase> {
    (
        (
            prop_oneof![2 => Just(1usize), 3 => Just(2), 3 => Just(3), 2 => Just(4)],
            any::<u32>(),
            prop::collection::vec(any::<u32>(), 10..max_cells),
            universe(),
            prop::collection::vec((-3..4i32, -3..4i32), 5),
            prop::collection::vec(prop_oneof![1 => Just(0.0), 1 => -8.0..8.0f64], 5),
            prop::collection::vec(prop_oneof![1 => Just(0u32), 5 => 1..10u32], 1..5),
            any::<bool>(),
        ),
        (
            any::<bool>(),
            prop_oneof![1 => Just(None), 1 => (-10.0..-0.1f64).prop_map(|x| Some(10f64.powf(x)))],
            prop_oneof![1 => Just(Dirs::Num(1)), 1 => Just(Dirs::Num(16)), 3 => prop::collection::vec(direction(), 1..5).prop_map(Dirs::Explicit)],
            1..4usize,
            prop_oneof![Just(0.1), Just(0.5)],
            any::<bool>(),
            prop_oneof![Just(None), Just(Some(1)), Just(Some(3))],
            prop_oneof![Just(0.0), Just(1e-8), Just(0.01)],
            prop::collection::vec((any::<u32>(), -2.0..1.0f64), 0..5),
            -2.0..1.0f64,
        ),
        (
            prop::collection::vec(any::<u32>(), 0..10),
            0..33u32,
            prop_oneof![1 => Just(None), 1 => Just(Some(0)), 3 => (1..20u32).prop_map(Some)],
            prop_oneof![1 => Just(None), 1 => (0..20u32).prop_map(Some)],
            prop_oneof![1 => Just(None), 2 => (1..6usize).prop_map(Some), 1 => (9..13usize).prop_map(Some)],
            prop_oneof![1 => Just(None), 1 => (1..6usize).prop_map(Some)],
            prop_oneof![1 => Just(None), 1 => any::<u32>().prop_map(Some)],
            any::<bool>(),
        ),
    )
        .prop_map(
            |(
                (ranks, seed, names, universe, scalings, units, files, folder),
                (comoving_box, fraction, dirs, levels, safety, prevent_cooling, batch, threshold, sources, depth),
                (junk, final_time, interval, first, output_files, padding, fields, overrides),
            )| {
                let scalings = if universe.is_some() { scalings } else { vec![(0, 0); 5] };
                let comoving_box = comoving_box && universe.is_some();
                let mut files = files;
                if files.iter().all(|f| *f == 0) {
                    files[0] = 1;
                }
                RunCase {
                    ranks, seed, names, universe, scalings, units, files, folder, comoving_box, fraction, dirs, levels, safety, prevent_cooling, batch,
                    threshold, sources, depth, junk, final_time, interval, first, output_files, padding, fields, overrides,
                }
            },
        )
}

/// Exactly representable, as are its eighths.
const MAX_TIMESTEP: f64 = 3.2e13;

/// Names, and whether they are written only once.
const FIELDS: [(&str, bool); 13] = [
    ("position", true),
    ("density", true),
    ("source", true),
    ("mass", true),
    ("ionized_hydrogen_fraction", false),
    ("temperature", false),
    ("photon_rate", false),
    ("photoionization_rate", false),
    ("recombination_rate", false),
    ("collisional_ionization_rate", false),
    ("heating_rate", false),
    ("timestep", false),
    ("ionization_time", false),
];

/// Powers of length, time, mass, temperature.
fn dimension(field: &str) -> [i32; 4] {
    match field {
        "position" => [1, 0, 0, 0],
        "density" => [-3, 0, 1, 0],
        "mass" => [0, 0, 1, 0],
        "temperature" => [0, 0, 0, 1],
        "source" | "photon_rate" | "photoionization_rate" | "recombination_rate" | "collisional_ionization_rate" => [0, -1, 0, 0],
        "heating_rate" => [-1, -3, 1, 0],
        "timestep" | "ionization_time" => [0, 1, 0, 0],
        _ => [0; 4],
    }
}

struct Setup {
    cells: Vec<CellSpec>,
    parameters: Parameters,
    side: f64,
    abundance: Vec<f64>,
    energy: Vec<f64>,
    total: f64,
    /// In the parameters instead of the sources of the cells.
    sources: Option<String>,
    remap: Option<String>,
    /// The run makes the grid itself.
    construct: Option<Construct>,
    /// How much less exactly than usual results can be known.
    slack: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Construct {
    periodic: bool,
    /// As part of the box.
    search_radius: Option<f64>,
}

impl RunCase {
    fn fields(&self) -> Vec<&'static str> {
        let all = FIELDS.iter().map(|f| f.0);
        match self.fields {
            None => all.collect(),
            // One of the first two, to know the particles by.
            Some(bits) => all.enumerate().filter(|(i, _)| bits >> i & 1 == 1 || *i as u32 == bits % 2).map(|f| f.1).collect(),
        }
    }

    fn setup(&self) -> Setup {
        self.setup_of(Grid::Voronoi { names: self.names.clone(), sides: [1.0; 3] }.cells())
    }

    /// With these cells in the unit cube.
    fn setup_of(&self, mut cells: Vec<CellSpec>) -> Setup {
        let side = KPC * (0.5 + random(self.seed, 40));
        let mut total = 0.0;
        let (mut abundance, mut energy) = (vec![], vec![]);
        let extent = (cells.len() as f64).cbrt();
        for (i, c) in cells.iter_mut().enumerate() {
            let name = self.seed ^ i as u32;
            let density = 10f64.powf(self.depth + random(name, 30) - 0.5) / (SIGMA * side / extent);
            c.center = c.center.map(|x| x * side);
            c.volume *= side.powi(3);
            c.size = c.volume.cbrt();
            for f in &mut c.faces {
                f.area *= side * side;
            }
            c.density = density * PROTON_MASS;
            let x: f64 = [0.0, 1e-3, 0.5, 1.1, 1.4][(random(name, 31) * 5.0) as usize];
            abundance.push(x);
            c.fraction = self.fraction.unwrap_or((0.76 * x).clamp(1e-10, 1.0 - 1e-10));
            c.temperature = 10f64.powf(2.0 + 4.0 * random(name, 32));
            let mu = 1.0 / (1.0 + c.fraction);
            energy.push(c.temperature * BOLTZMANN / (mu * (GAMMA - 1.0) * PROTON_MASS));
        }
        let n = cells.len();
        for (name, strength) in &self.sources {
            let c = &mut cells[(random(*name, 50) * n as f64) as usize];
            let rate = c.density / PROTON_MASS * c.volume / MAX_TIMESTEP * 10f64.powf(*strength);
            c.source += rate;
            total += rate;
        }
        // All faces once, of both cells: as in the file.
        let faces: Vec<Vec<_>> = cells.iter().map(|c| c.faces.clone()).collect();
        for (i, c) in cells.iter_mut().enumerate() {
            c.faces.retain(|f| !matches!(f.link, Link::Cell(j) if !faces[j].iter().any(|g| g.link == Link::Cell(i))));
            for f in &mut c.faces {
                if let Link::Cell(j) = f.link {
                    if j < i {
                        let other = faces[j].iter().find(|g| g.link == Link::Cell(i)).unwrap();
                        f.area = other.area;
                        f.normal = other.normal.map(|x| -x);
                    }
                }
            }
        }
        let directions = match &self.dirs {
            // The only one, or the table: see below.
            Dirs::Num(_) => vec![],
            Dirs::Explicit(d) => d.iter().map(|d| d.vector()).collect(),
        };
        let parameters = Parameters {
            directions,
            levels: self.levels,
            max_timestep: MAX_TIMESTEP,
            safety: self.safety,
            chemistry_safety: 0.1,
            threshold: self.threshold * total,
            batch: 10000,
            check_deadlock: false,
            prevent_cooling: self.prevent_cooling,
            scale_factor: self.universe.as_ref().map(|u| u.a).unwrap_or(1.0),
        };
        Setup { cells, parameters, side, abundance, energy, total, sources: None, remap: None, construct: None, slack: 1.0 }
    }

    /// What a number in the file is in SI units, for the quantity of this index, with powers of length, velocity and mass.
    fn factor(&self, index: usize, [length, velocity, mass]: [i32; 3]) -> f64 {
        let (a, h) = self.scalings[index];
        let cosmological = self.universe.as_ref().map(|u| u.a.powi(a) * u.h.powi(h)).unwrap_or(1.0);
        10f64.powf(self.units[index]) * 0.01f64.powi(length + velocity) * 0.001f64.powi(mass) * cosmological
    }

    fn write_attributes(&self, set: &hdf5::Dataset, index: usize, [length, velocity, mass]: [i32; 3]) {
        set.new_attr::<f64>().shape(()).create("to_cgs").unwrap().write_scalar(&10f64.powf(self.units[index])).unwrap();
        let (a, h) = self.scalings[index];
        for (name, value) in [("length_scaling", length), ("velocity_scaling", velocity), ("mass_scaling", mass), ("a_scaling", a), ("h_scaling", h)] {
            set.new_attr::<i32>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
        }
    }

    fn write_plain_attributes(set: &hdf5::Dataset, zero: bool) {
        // Some files give 0 as the unit of numbers without one.
        set.new_attr::<f64>().shape(()).create("to_cgs").unwrap().write_scalar(&(if zero { 0.0 } else { 1.0 })).unwrap();
        for name in ["length_scaling", "velocity_scaling", "mass_scaling", "a_scaling", "h_scaling"] {
            set.new_attr::<i32>().shape(()).create(name).unwrap().write_scalar(&0i32).unwrap();
        }
    }

    fn write_particles(&self, s: &Setup, dir: &Path) -> Vec<PathBuf> {
        let n = s.cells.len();
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by(|a, b| random(self.seed ^ *a as u32, 60).total_cmp(&random(self.seed ^ *b as u32, 60)));
        let sum: u32 = self.files.iter().sum();
        let (mut done, mut until) = (0, 0);
        let mut paths = vec![];
        fs::create_dir_all(dir.join("input")).unwrap();
        for (k, size) in self.files.iter().enumerate() {
            until += size;
            let end = n * until as usize / sum as usize;
            let rows = &order[done..end];
            done = end;
            let path = dir.join("input").join(format!("ics.{k}.hdf5"));
            let file = File::create(&path).unwrap();
            paths.push(path);
            if *size == 0 {
                continue;
            }
            let set = file.new_dataset::<f64>().shape((rows.len(), 3)).create("PartType0/Coordinates").unwrap();
            let f = self.factor(0, [1, 0, 0]);
            set.write_rows(&rows.iter().map(|i| s.cells[*i].center.iter().map(|x| x / f).collect()).collect::<Vec<_>>()).unwrap();
            self.write_attributes(&set, 0, [1, 0, 0]);
            let mut write = |name: &str, index: usize, powers: [i32; 3], value: &dyn Fn(usize) -> f64| {
                let f = self.factor(index, powers);
                let set = file.new_dataset::<f64>().shape(rows.len()).create(name).unwrap();
                set.write_slice(&rows.iter().map(|i| value(*i) / f).collect::<Vec<f64>>(), 0..rows.len()).unwrap();
                self.write_attributes(&set, index, powers);
            };
            write("PartType0/Density", 1, [-3, 0, 1], &|i| s.cells[i].density);
            write("PartType0/InternalEnergy", 2, [0, 2, 0], &|i| s.energy[i]);
            write("PartType0/Masses", 3, [0, 0, 1], &|i| s.cells[i].density * s.cells[i].volume);
            if self.fraction.is_none() {
                let set = file.new_dataset::<f64>().shape(rows.len()).create("PartType0/ElectronAbundance").unwrap();
                set.write_slice(&rows.iter().map(|i| s.abundance[*i]).collect::<Vec<f64>>(), 0..rows.len()).unwrap();
                Self::write_plain_attributes(&set, self.seed & 1 == 1);
            }
            let set = file.new_dataset::<u64>().shape(rows.len()).create("PartType0/ParticleIDs").unwrap();
            set.write_slice(&rows.iter().map(|i| self.id(*i)).collect::<Vec<u64>>(), 0..rows.len()).unwrap();
        }
        paths
    }

    fn id(&self, i: usize) -> u64 {
        1 + i as u64 * if self.seed & 2 > 0 { 1 } else { 123_456_789_012_345 }
    }

    fn write_grid(&self, s: &Setup, path: &Path) {
        // Ids, type, area, normal.
        let mut rows: Vec<(u64, u64, i32, f64, [f64; 3])> = vec![];
        let n = s.cells.len();
        let any = |k: u32| self.id((random(self.seed, 1000 + k) * n as f64) as usize);
        let mut count = 0;
        for (i, c) in s.cells.iter().enumerate() {
            for f in &c.faces {
                count += 1;
                let first = random(self.seed, 2000 + count) < 0.5;
                let back = f.normal.map(|x| -x);
                match f.link {
                    // The normal points away from the second.
                    Link::Cell(j) if i < j => {
                        rows.push(if first { (self.id(i), self.id(j), 0, f.area, back) } else { (self.id(j), self.id(i), 0, f.area, f.normal) })
                    }
                    Link::Cell(_) => {}
                    _ => rows.push(if first { (self.id(i), any(count), 4, f.area, back) } else { (any(count), self.id(i), 1, f.area, f.normal) }),
                }
            }
        }
        for (k, j) in self.junk.iter().enumerate() {
            rows.push((any(k as u32), any(100 + k as u32), [-1, 2, 8, 5, 10, 7][*j as usize % 6], s.side * s.side, [1.0, 0.0, 0.0]));
        }
        let m = rows.len();
        let mut order: Vec<usize> = (0..m).collect();
        order.sort_by(|a, b| random(self.seed ^ *a as u32, 61).total_cmp(&random(self.seed ^ *b as u32, 61)));
        let rows: Vec<_> = order.into_iter().map(|i| rows[i]).collect();
        let file = File::create(path).unwrap();
        let set = file.new_dataset::<u64>().shape(m).create("Id1").unwrap();
        set.write_slice(&rows.iter().map(|r| r.0).collect::<Vec<_>>(), 0..m).unwrap();
        let set = file.new_dataset::<u64>().shape(m).create("Id2").unwrap();
        set.write_slice(&rows.iter().map(|r| r.1).collect::<Vec<_>>(), 0..m).unwrap();
        let set = file.new_dataset::<i32>().shape(m).create("ConnectionType").unwrap();
        set.write_slice(&rows.iter().map(|r| r.2).collect::<Vec<_>>(), 0..m).unwrap();
        let f = self.factor(4, [2, 0, 0]);
        let set = file.new_dataset::<f64>().shape(m).create("Area").unwrap();
        set.write_slice(&rows.iter().map(|r| r.3 / f).collect::<Vec<_>>(), 0..m).unwrap();
        self.write_attributes(&set, 4, [2, 0, 0]);
        let set = file.new_dataset::<f64>().shape((m, 3)).create("Normal").unwrap();
        set.write_rows(&rows.iter().map(|r| r.4.to_vec()).collect::<Vec<_>>()).unwrap();
        Self::write_plain_attributes(&set, false);
    }

    fn eighths(k: u32) -> f64 {
        k as f64 * MAX_TIMESTEP / 8.0
    }

    /// Parameter file and arguments.
    fn parameters(&self, s: &Setup, dir: &Path, input: &[PathBuf]) -> (String, Vec<String>) {
        let mut y = String::new();
        let mut line = |text: String| {
            y.push_str(&text);
            y.push('\n');
        };
        let seconds = |k: u32| format!("{:e} s", Self::eighths(k));
        line("output:".into());
        line(format!("  output_dir: {}", dir.join("out").display()));
        if let Some(k) = self.interval {
            line(format!("  time_between_snapshots: {}", seconds(k)));
        }
        if let Some(k) = self.first {
            line(format!("  time_first_snapshot: {}", seconds(k)));
        }
        if let Some(k) = self.output_files {
            line(format!("  num_output_files: {k}"));
        }
        if let Some(k) = self.padding {
            line(format!("  snapshot_padding: {k}"));
        }
        if self.fields.is_some() {
            line(format!("  fields: [{}]", self.fields().join(", ")));
        }
        let input = if self.folder { dir.join("input").display().to_string() } else { input.iter().map(|p| p.display().to_string()).collect::<Vec<_>>().join(", ") };
        line(format!("input:\n  paths: [{input}]"));
        if let Some(u) = &self.universe {
            line(format!("cosmology:\n  a: {:?}\n  h: {:?}", u.a, u.h));
            if let Some(o) = u.omega_0 {
                line(format!("  params:\n    omega_0: {:?}\n    omega_lambda: {:?}", o, 1.0 - o));
            }
        }
        match &self.universe {
            Some(u) if self.comoving_box => line(format!("box_size: {:?} ckpc/h", s.side * (1.0 + 1e-12) / KPC / u.a * u.h)),
            _ => line(format!("box_size: {:?} m", s.side * (1.0 + 1e-12))),
        }
        line("sweep:".into());
        match &self.dirs {
            Dirs::Num(n) => line(format!("  directions: {n}")),
            Dirs::Explicit(_) => {
                line("  directions:".into());
                for d in &s.parameters.directions {
                    line(format!("    - ({:?} {:?} {:?})", d[0], d[1], d[2]));
                }
            }
        }
        let periodic = matches!(s.construct, Some(Construct { periodic: true, .. }));
        line(format!("  periodic: {periodic}\n  max_timestep: {:e} s", MAX_TIMESTEP));
        line(format!("  significant_rate_threshold: {:e} s^-1", s.parameters.threshold));
        if self.safety != 0.1 {
            line(format!("  timestep_safety_factor: {:?}", self.safety));
        }
        if !self.prevent_cooling {
            line("  prevent_cooling: false".into());
        }
        if let Some(b) = self.batch {
            line(format!("  num_tasks_to_solve_before_send_receive: {b}"));
        }
        let (mut levels, mut final_time) = (self.levels, seconds(self.final_time));
        let mut arguments = vec![];
        if self.overrides {
            arguments.push(format!("sweep/num_timestep_levels:{levels}"));
            arguments.push(format!("simulation/final_time:{final_time}"));
            levels += 2;
            final_time = "1 s".into();
        }
        line(format!("  num_timestep_levels: {levels}"));
        line(format!("simulation:\n  final_time: {final_time}"));
        if let Some(Construct { search_radius: Some(r), .. }) = &s.construct {
            line(format!("grid:\n  initial_search_radius: {:e} m", r * s.side));
        }
        line("postprocess:".into());
        if let Some(x) = self.fraction {
            line(format!("  initial_fraction_ionized_hydrogen: {x:?}"));
        }
        match &s.construct {
            None => line(format!("  grid: !read {}", dir.join("grid.hdf5").display())),
            Some(_) => line("  grid: !construct".into()),
        }
        if let Some(remap) = &s.remap {
            line(format!("  remap_from: {remap}"));
        }
        if let Some(sources) = &s.sources {
            line(format!("  sources: {sources}"));
            return (y, arguments);
        }
        let mut sources = vec![];
        for (i, c) in s.cells.iter().enumerate() {
            if c.source > 0.0 {
                // Two sources in one cell add up.
                let part = random(self.seed ^ i as u32, 70);
                for rate in [part * c.source, (1.0 - part) * c.source] {
                    let p = c.center;
                    sources.push(format!("      - {{pos: \"({:?} {:?} {:?}) m\", rate: \"{:e} s^-1\"}}", p[0], p[1], p[2], rate));
                }
            }
        }
        line(if sources.is_empty() { "  sources: !explicit []".into() } else { format!("  sources: !explicit\n{}", sources.join("\n")) });
        (y, arguments)
    }
}

// --------------------------------------------------------------------------------- the program

pub struct Run {
    pub status: Option<i32>,
    pub log: String,
}

fn launch(dir: &Path, ranks: usize, arguments: &[String], limit: u64) -> Option<Run> {
    let program = std::env::current_exe().unwrap().parent().unwrap().join("subsweep");
    let log = fs::File::create(dir.join("log")).unwrap();
    let session = dir.join("t");
    let _ = fs::remove_dir_all(&session);
    fs::create_dir_all(&session).unwrap();
    let mut child = Command::new("mpirun")
        .args(["--allow-run-as-root", "-np", &ranks.to_string()])
        .arg(program)
        .args(arguments)
        .current_dir(dir)
        .env_clear()
        .envs(ENVIRONMENT.get().unwrap().iter().cloned())
        .env("TMPDIR", &session)
        .stdin(Stdio::null())
        .stdout(log.try_clone().unwrap())
        .stderr(log)
        .process_group(0)
        .spawn()
        .expect("mpirun");
    let status = wait(&mut child, limit)?;
    Some(Run { status, log: fs::read_to_string(dir.join("log")).unwrap_or_default() })
}

/// Status of a process group, or None if it does not end.
fn wait(child: &mut std::process::Child, limit: u64) -> Option<Option<i32>> {
    let begin = Instant::now();
    loop {
        if let Some(status) = child.try_wait().unwrap() {
            return Some(status.code());
        }
        if begin.elapsed() > Duration::from_secs(limit) {
            let _ = Command::new("kill").args(["-TERM", "--", &format!("-{}", child.id())]).status();
            std::thread::sleep(Duration::from_secs(1));
            let _ = Command::new("kill").args(["-KILL", "--", &format!("-{}", child.id())]).status();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// A folder of its own for one case.
pub struct Folder(pub PathBuf);

impl Folder {
    pub fn new() -> Folder {
        let root = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or(std::env::temp_dir());
        let path = root.join(format!("case-{}", std::process::id()));
        let _ = fs::remove_dir_all(&path);
        fs::create_dir_all(&path).unwrap();
        Folder(path)
    }
}

impl Drop for Folder {
    fn drop(&mut self) {
        if std::env::var("VERIF_KEEP").is_err() {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

pub fn run_program(dir: &Path, ranks: usize, arguments: &[String]) -> Result<Run, String> {
    let mut failed = 0;
    for _ in 0..4 {
        match launch(dir, ranks, arguments, if failed == 0 { 60 } else { 150 }) {
            // MPI itself did not start.
            Some(run) if run.log.contains("orte_init") || run.log.contains("ompi_mpi_init") => std::thread::sleep(Duration::from_secs(1)),
            Some(run) => return Ok(run),
            None if failed > 0 => break,
            None => failed += 1,
        }
        let _ = fs::remove_dir_all(dir.join("out"));
    }
    Err("the run does not end".into())
}

fn tail(log: &str) -> String {
    let lines: Vec<&str> = log.lines().filter(|l| !l.trim().is_empty()).collect();
    let from = lines.iter().position(|l| l.contains("panicked")).unwrap_or(lines.len().saturating_sub(8));
    lines[from..].iter().take(8).cloned().collect::<Vec<_>>().join(" | ")
}

/// Values of one dataset over all files, in order, and its attributes.
#[derive(Default)]
struct Data {
    values: Vec<f64>,
    per_file: Vec<usize>,
}

struct Snapshot {
    number: String,
    files: Vec<String>,
    attributes: BTreeMap<String, f64>,
    data: BTreeMap<String, Data>,
}

fn read_snapshot(path: &Path) -> Result<Snapshot, String> {
    let mut files: Vec<String> = fs::read_dir(path).map_err(|e| e.to_string())?.map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    files.sort();
    let mut snapshot = Snapshot { number: path.file_name().unwrap().to_str().unwrap().into(), files: files.clone(), attributes: BTreeMap::new(), data: BTreeMap::new() };
    for (k, f) in files.iter().enumerate() {
        let file = File::open(path.join(f)).map_err(|e| e.to_string())?;
        for name in ["time", "scale_factor", "redshift", "little_h"] {
            if let Ok(attr) = file.attr(name) {
                let value: f64 = attr.read_scalar().map_err(|e| e.to_string())?;
                let known = snapshot.attributes.insert(name.into(), value);
                ensure!(known.is_none() || known == Some(value), "snapshot {}: {name} is {value:e} in {f}, and {known:?} in others", snapshot.number);
            } else {
                ensure!(!snapshot.attributes.contains_key(name), "snapshot {}: no {name} in {f}", snapshot.number);
            }
        }
        for name in file.dataset_names() {
            let set = file.dataset(&name).unwrap();
            let n = set.shape()[0];
            let data = snapshot.data.entry(name.clone()).or_default();
            ensure_eq!(data.per_file.len(), k, "files before {f} with {name} in snapshot {}", snapshot.number);
            data.per_file.push(n);
            if name == "position" {
                let v = set.read_slice_1d::<subsweep::components::Position, _>(0..n).map_err(|e| e.to_string())?;
                data.values.extend(v.iter().flat_map(|p| [p.x().in_meters(), p.y().in_meters(), p.z().in_meters()]));
            } else {
                let v = set.read_slice_1d::<f64, _>(0..n).map_err(|e| e.to_string())?;
                data.values.extend(v.iter());
            }
            let attr = |name: &str| set.attr(name).and_then(|a| a.read_scalar::<i32>()).map_err(|e| e.to_string());
            let powers = [attr("scaling_length")?, attr("scaling_time")?, attr("scaling_mass")?, attr("scaling_temperature")?];
            ensure_eq!(powers, dimension(&name), "powers of length, time, mass, temperature in the units of {name}");
            ensure_eq!((attr("scaling_a")?, attr("scaling_h")?), (0, 0), "powers of a and h in the units of {name}");
            let si: f64 = set.attr("scale_factor_si").and_then(|a| a.read_scalar()).map_err(|e| e.to_string())?;
            ensure_eq!(si, 1.0, "SI unit of {name}");
        }
    }
    Ok(snapshot)
}

fn close(a: f64, b: f64, tolerance: f64) -> bool {
    a == b || (a - b).abs() <= tolerance * a.abs().max(b.abs())
}

/// What is known after each iteration: time, and cells.
struct Moment {
    time: f64,
    states: Vec<State>,
    ionized_at: Vec<f64>,
    /// Whether the states can be compared: no timestep was a close call.
    certain: bool,
}

fn expected_moments(case: &RunCase, s: &Setup) -> Vec<Moment> {
    let slack = s.slack;
    let n = s.cells.len();
    let mut sweep = match case.dirs {
        Dirs::Num(k) => AnySweep::with_directions(&s.cells, &s.parameters, k, hook::hydrogen(&s.parameters), 1, 0),
        Dirs::Explicit(_) => AnySweep::new(&s.cells, &s.parameters, hook::hydrogen(&s.parameters), 1, 0),
    };
    let states = |sweep: &AnySweep<hook::Hydrogen>| {
        let mut v = sweep.states();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect::<Vec<_>>()
    };
    let final_time = RunCase::eighths(case.final_time);
    let mut moments = vec![Moment { time: 0.0, states: states(&sweep), ionized_at: vec![f64::INFINITY; n], certain: true }];
    let mut stop = 0.0 >= final_time;
    while !stop {
        let last = moments.last().unwrap();
        stop = last.time >= final_time;
        let (mut certain, mut ionized_at) = (last.certain, last.ionized_at.clone());
        let before = last.time;
        let time = before + sweep.step();
        let states = states(&sweep);
        for (i, s) in states.iter().enumerate() {
            if s.fraction > 0.5 && ionized_at[i].is_infinite() {
                ionized_at[i] = time;
            }
        }
        // A rounding error may decide on the level of a cell, or whether it counts as ionized.
        for s in &states {
            let l = (MAX_TIMESTEP / (case.safety * s.timescale)).log2();
            let level = case.levels > 1 && (l - l.round()).abs() < 1e-4 * slack && l.round() >= 0.0 && l.round() <= case.levels as f64;
            certain &= !level && (s.fraction - 0.5).abs() > 1e-5 * slack;
        }
        moments.push(Moment { time, certain, ionized_at, states });
        if moments.len() > 400 {
            break;
        }
    }
    moments
}

struct Performed {
    setup: Setup,
    moments: Vec<Moment>,
    snapshots: Vec<Snapshot>,
    series: BTreeMap<String, Vec<(f64, serde_yaml::Value)>>,
    used: String,
}

fn number(v: &serde_yaml::Value) -> Option<f64> {
    match v {
        serde_yaml::Value::Number(n) => n.as_f64(),
        serde_yaml::Value::String(s) => s.split_whitespace().next()?.parse().ok(),
        _ => None,
    }
}

fn perform(case: &RunCase, more: &[&str]) -> Result<Performed, String> {
    perform_setup(case, case.setup(), more, |_, _, _| {})
}

/// With more done to the folder and its input files before.
fn perform_setup(case: &RunCase, setup: Setup, more: &[&str], prepare: impl FnOnce(&Setup, &Path, &[PathBuf])) -> Result<Performed, String> {
    perform_in(case, setup, more, Folder::new(), prepare)
}

fn perform_in(case: &RunCase, setup: Setup, more: &[&str], folder: Folder, prepare: impl FnOnce(&Setup, &Path, &[PathBuf])) -> Result<Performed, String> {
    let dir = &folder.0;
    let input = case.write_particles(&setup, dir);
    if setup.construct.is_none() {
        case.write_grid(&setup, &dir.join("grid.hdf5"));
    }
    let (text, overrides) = case.parameters(&setup, dir, &input);
    fs::write(dir.join("parameters.yml"), &text).unwrap();
    prepare(&setup, dir, &input);
    let mut arguments = vec![dir.join("parameters.yml").display().to_string()];
    arguments.extend(overrides);
    arguments.extend(more.iter().map(|s| s.to_string()));
    let run = run_program(dir, case.ranks, &arguments)?;
    ensure!(run.status == Some(0), "the run ends with status {:?}: {}", run.status, tail(&run.log));
    let out = dir.join("out");
    collect(case, setup, &out.join("snapshots"), &out.join("time_series"), &out.join("parameters.yml"))
}

fn collect(case: &RunCase, setup: Setup, snapshots: &Path, series: &Path, used: &Path) -> Result<Performed, String> {
    let mut numbers: Vec<PathBuf> = fs::read_dir(snapshots).map_err(|e| format!("no snapshots: {e}"))?.map(|e| e.unwrap().path()).collect();
    numbers.sort();
    let snapshots = numbers.iter().map(|p| read_snapshot(p)).collect::<Result<Vec<_>, _>>()?;
    let folder = series;
    let mut series = BTreeMap::new();
    for entry in fs::read_dir(folder).map_err(|e| format!("no time series: {e}"))? {
        let path = entry.unwrap().path();
        let name = path.file_stem().unwrap().to_str().unwrap().to_string();
        let text = fs::read_to_string(&path).unwrap();
        let mut list = vec![];
        if !text.trim().is_empty() {
            let entries: Vec<serde_yaml::Value> = serde_yaml::from_str(&text).map_err(|e| format!("time series {name}: {e}"))?;
            for e in entries {
                let time = e.get("time").ok_or(format!("no time in {name}"))?;
                let time = number(time).or_else(|| number(time.get("time_elapsed")?)).ok_or(format!("time series {name}: time {time:?}"))?;
                list.push((time, e.get("val").cloned().unwrap_or_default()));
            }
        }
        series.insert(name, list);
    }
    let used = fs::read_to_string(used).map_err(|e| format!("no copy of the parameters: {e}"))?;
    let moments = expected_moments(case, &setup);
    Ok(Performed { setup, moments, snapshots, series, used })
}

/// The iterations after which there is a snapshot.
fn expected_snapshots(case: &RunCase, moments: &[Moment]) -> Vec<usize> {
    let mut next = RunCase::eighths(case.first.unwrap_or(0));
    let mut list = vec![];
    for (i, m) in moments.iter().enumerate() {
        if m.time >= next || i == moments.len() - 1 {
            list.push(i);
            next += RunCase::eighths(case.interval.unwrap_or(0));
        }
    }
    list
}

fn check_schedule(case: &RunCase, p: &Performed) -> Result<Vec<usize>, String> {
    let n = p.setup.cells.len();
    let expected = expected_snapshots(case, &p.moments);
    let times: Vec<f64> = expected.iter().map(|i| p.moments[*i].time).collect();
    let found: Vec<f64> = p.snapshots.iter().map(|s| s.attributes.get("time").copied().unwrap_or(f64::NAN)).collect();
    ensure_eq!(found, times, "times of the snapshots");
    let padding = case.padding.unwrap_or(3);
    let files = case.output_files.unwrap_or(1);
    let digits = files.to_string().len();
    let names: Vec<String> = p.snapshots.iter().map(|s| s.number.clone()).collect();
    let mut wanted: Vec<String> = (0..times.len()).map(|i| format!("{i:0padding$}")).collect();
    wanted.sort();
    ensure_eq!(names, wanted, "names of the snapshots");
    let fields = case.fields();
    for (k, s) in p.snapshots.iter().enumerate() {
        let size = n / files;
        let sizes: Vec<usize> = (0..files).map(|i| if i + 1 == files { n - size * (files - 1) } else { size }).filter(|x| *x > 0).collect();
        let first = files - sizes.len();
        let wanted: Vec<String> = (first..files).map(|i| format!("{i:0digits$}.hdf5")).collect();
        ensure_eq!(s.files, wanted, "files of snapshot {k}");
        let mut wanted: Vec<&str> = FIELDS.iter().filter(|f| fields.contains(&f.0) && (k == 0 || !f.1)).map(|f| f.0).collect();
        wanted.sort();
        let found: Vec<&str> = s.data.keys().map(|x| x.as_str()).collect();
        ensure_eq!(found, wanted, "fields in snapshot {k}");
        for (name, d) in &s.data {
            ensure_eq!(d.per_file, sizes, "entries of {name} in the files of snapshot {k}");
        }
        // Attributes of the universe.
        if let Some(u) = &case.universe {
            let a = *s.attributes.get("scale_factor").ok_or("no scale_factor")?;
            let z = *s.attributes.get("redshift").ok_or("no redshift")?;
            ensure!(close(1.0 + z, 1.0 / a, 1e-12), "snapshot {k}: redshift {z} at scale factor {a}");
            ensure_eq!(s.attributes.get("little_h"), Some(&u.h), "h of snapshot {k}");
            match u.omega_0 {
                None => ensure_eq!(a, u.a, "scale factor of snapshot {k}"),
                Some(_) => {
                    let passed = u.age(a) - u.age(u.a);
                    ensure!(
                        (passed - found_time(s)).abs() <= 101.0 * YEAR + 1e-9 * u.age(a),
                        "snapshot {k} at {:e} s has scale factor {a}, which is {passed:e} s after the beginning at {}", found_time(s), u.a
                    );
                }
            }
        } else {
            ensure!(!s.attributes.contains_key("scale_factor"), "a scale factor without cosmology");
        }
    }
    // Time series: one entry per iteration.
    for name in [
        "hydrogen_ionization_mass_average",
        "hydrogen_ionization_volume_average",
        "temperature_mass_average",
        "temperature_volume_average",
        "photoionization_rate_volume_average",
        "weighted_photoionization_rate_volume_average",
        "num_particles_at_timestep_levels",
    ] {
        let series = p.series.get(name).ok_or(format!("no time series {name}"))?;
        ensure!(
            series.len() == p.moments.len() && series.iter().zip(&p.moments).all(|(s, m)| close(s.0, m.time, 1e-9)),
            "time series {name} has entries at {:?}, expected {:?}",
            series.iter().map(|s| s.0).collect::<Vec<_>>(),
            p.moments.iter().map(|m| m.time).collect::<Vec<_>>()
        );
    }
    let light = p.series.get("total_luminosity").ok_or("no time series total_luminosity")?;
    ensure!(
        light.len() == 1 && light[0].0 == 0.0 && close(number(&light[0].1).unwrap_or(f64::NAN), p.setup.total, 1e-9),
        "total luminosity {light:?}, expected {:e} at the beginning", p.setup.total
    );
    Ok(expected)
}

fn found_time(s: &Snapshot) -> f64 {
    s.attributes["time"]
}

/// Which cell each row is.
fn rows(p: &Performed) -> Result<Vec<usize>, String> {
    let first = &p.snapshots[0].data;
    let n = p.setup.cells.len();
    let mut list = vec![];
    for row in 0..n {
        let distance = |i: usize| -> f64 {
            let c = &p.setup.cells[i];
            match first.get("position") {
                Some(d) => (0..3).map(|k| (d.values[3 * row + k] - c.center[k]).abs()).fold(0.0, f64::max) / p.setup.side,
                None => (first["density"].values[row] / c.density - 1.0).abs(),
            }
        };
        let best = (0..n).min_by(|a, b| distance(*a).total_cmp(&distance(*b))).unwrap();
        ensure!(distance(best) < 1e-9, "row {row} of the first snapshot is no particle of the input (off by {:e})", distance(best));
        list.push(best);
    }
    let mut sorted = list.clone();
    sorted.sort();
    ensure_eq!(sorted, (0..n).collect::<Vec<_>>(), "particles in the first snapshot");
    Ok(list)
}

fn gas(s: &Setup, i: usize, state: &State) -> Gas {
    let c = &s.cells[i];
    Gas {
        fraction: state.fraction,
        temperature: state.temperature,
        density: c.density,
        volume: c.volume,
        length: c.size,
        rate: state.incoming.iter().sum::<f64>() + c.source,
        scale_factor: s.parameters.scale_factor,
        floor: None,
    }
}

/// All fields of a cell, and how exactly they can be known.
fn expected_fields(s: &Setup, i: usize, m: &Moment) -> BTreeMap<&'static str, (f64, f64)> {
    let state = &m.states[i];
    let c = &s.cells[i];
    let r = rates(&gas(s, i, state), YEAR);
    let electrons = r.electrons;
    let mut map = BTreeMap::new();
    let mut put = |name, value: f64, error: f64| {
        map.insert(name, (value, s.slack * (error + 1e-6 * value.abs())));
    };
    put("density", c.density, 0.0);
    put("source", c.source, 0.0);
    put("mass", c.density * c.volume, 0.0);
    put("ionized_hydrogen_fraction", state.fraction, 0.0);
    put("temperature", state.temperature, 0.0);
    put("photon_rate", state.incoming.iter().sum(), 1e-9 * s.total);
    put("photoionization_rate", r.photoionization, 1e-9 * s.total / (c.density / PROTON_MASS * c.volume));
    put("recombination_rate", r.recombination.0 * electrons * state.fraction, 0.0);
    put("collisional_ionization_rate", r.ionization.0 * electrons * (1.0 - state.fraction), 1e-6 * r.ionization.0 * electrons);
    // erg/cm^3/s
    put("heating_rate", 0.1 * (r.heating - r.cooling.0), 1e-7 * (r.heating.abs() + r.cooling.0.abs()));
    put("ionization_time", m.ionized_at[i], 0.0);
    map
}

fn check_states(p: &Performed, expected: &[usize]) -> Result<usize, String> {
    let rows = rows(p)?;
    let mut compared = 0;
    for (s, moment) in p.snapshots.iter().zip(expected) {
        let m = &p.moments[*moment];
        if !m.certain {
            break;
        }
        compared += 1;
        for (row, i) in rows.iter().enumerate() {
            for (name, (value, error)) in expected_fields(&p.setup, *i, m) {
                if let Some(d) = s.data.get(name) {
                    let found = d.values[row];
                    ensure!(found == value || (found - value).abs() <= error, "snapshot at {:e} s: {name} of particle {i} is {found:e}, expected {value:e}", m.time);
                }
            }
            if let Some(d) = s.data.get("position") {
                for k in 0..3 {
                    ensure!((d.values[3 * row + k] - p.setup.cells[*i].center[k]).abs() < 1e-9 * p.setup.side, "particle {i} has moved");
                }
            }
        }
    }
    // Averages.
    for (k, m) in p.moments.iter().enumerate() {
        if !m.certain {
            break;
        }
        let mean = |weight: &dyn Fn(usize) -> f64, value: &dyn Fn(usize) -> f64| {
            let n = p.setup.cells.len();
            (0..n).map(|i| weight(i) * value(i)).sum::<f64>() / (0..n).map(|i| weight(i)).sum::<f64>()
        };
        let volume = |i: usize| p.setup.cells[i].volume;
        let mass = |i: usize| p.setup.cells[i].volume * p.setup.cells[i].density;
        let x = |i: usize| m.states[i].fraction;
        let t = |i: usize| m.states[i].temperature;
        let rate = |i: usize| rates(&gas(&p.setup, i, &m.states[i]), YEAR).photoionization;
        let list = vec![
            ("hydrogen_ionization_mass_average", mean(&mass, &x)),
            ("hydrogen_ionization_volume_average", mean(&volume, &x)),
            ("temperature_mass_average", mean(&mass, &t)),
            ("temperature_volume_average", mean(&volume, &t)),
            ("photoionization_rate_volume_average", mean(&volume, &rate)),
            ("weighted_photoionization_rate_volume_average", mean(&volume, &|i| rate(i) * x(i))),
        ];
        for (name, value) in list {
            let found = number(&p.series[name][k].1).unwrap_or(f64::NAN);
            ensure!(close(found, value, 1e-6 * p.setup.slack) || (found - value).abs() < 1e-25, "{name} at {:e} s is {found:e}, expected {value:e}", m.time);
        }
    }
    Ok(compared)
}

fn states_case(case: &RunCase) -> Outcome {
    let p = perform(case, &[])?;
    let expected = check_schedule(case, &p)?;
    let compared = check_states(&p, &expected)?;
    if case.sources.is_empty() || p.moments.len() < 2 {
        return Ok("".into());
    }
    Ok(format!("{} ranks, {}", case.ranks, if compared == expected.len() { "all snapshots compared" } else { "some snapshots compared" }).into())
}

const NEGATIVE_RATES: &str = r#"{"batch": null, "comoving_box": false, "depth": 0.7408442211045885, "dirs": {"Num": 1}, "fields": null, "files": [1], "final_time": 5, "first": null, "folder": false, "fraction": 0.7943282347242815, "interval": null, "junk": [], "levels": 2, "names": [116003008, 129725274, 770694175, 116183243, 72235583, 1024635630, 941607266, 1993432472, 802670703, 1888026866], "output_files": null, "overrides": false, "padding": null, "prevent_cooling": false, "ranks": 1, "safety": 0.1, "scalings": [[0, 0], [0, 0], [0, 0], [0, 0], [0, 0]], "seed": 2014281947, "sources": [[579288063, -1.6245978112141828]], "threshold": 0.0, "units": [0.0, 0.0, 0.0, 0.0, 0.0], "universe": null}"#;

#[derive(Clone, Copy, PartialEq)]
enum Rotated {
    /// Everything but the two known findings.
    All,
    /// The rates are those of the light that arrives.
    Rates,
    /// No negative rates.
    Sign,
}

/// With rotating directions: as often and at the same times as without, and finite positive results.
fn rotated_case(case: &RunCase, part: Rotated) -> Outcome {
    let with_rates = part == Rotated::Rates;
    let p = perform(case, &["sweep/rotate_directions:true"])?;
    let expected = check_schedule(case, &p)?;
    let rows = rows(&p)?;
    let mut light = false;
    for (s, moment) in p.snapshots.iter().zip(&expected) {
        let time = p.moments[*moment].time;
        for (row, i) in rows.iter().enumerate() {
            let value = |name: &str| s.data.get(name).map(|d| d.values[row]);
            for (name, d) in s.data.iter().filter(|(name, _)| *name != "position") {
                let v = d.values[row];
                ensure!(v.is_finite() || (name == "ionization_time" && v > 0.0), "snapshot at {time:e} s: {name} of particle {i} is {v}");
                let rate = name == "photon_rate" || name == "photoionization_rate";
                if rate && case.levels > 1 {
                    ensure!(v >= 0.0 || part != Rotated::Sign, "negative rates with rotating directions and several timestep levels: at {time:e} s, {name} of particle {i} is {v:e}");
                } else {
                    ensure!(v >= 0.0 || name == "heating_rate", "snapshot at {time:e} s: {name} of particle {i} is {v:e}");
                }
            }
            ensure!(value("ionized_hydrogen_fraction") <= Some(1.0), "ionized fraction {:?} of particle {i}", value("ionized_hydrogen_fraction"));
            if let (true, Some(fraction), Some(temperature), Some(arriving), Some(rate)) =
                (with_rates, value("ionized_hydrogen_fraction"), value("temperature"), value("photon_rate"), value("photoionization_rate"))
            {
                let c = &p.setup.cells[*i];
                let g = Gas {
                    fraction,
                    temperature,
                    density: c.density,
                    volume: c.volume,
                    length: c.size,
                    rate: arriving + c.source,
                    scale_factor: p.setup.parameters.scale_factor,
                    floor: None,
                };
                light |= arriving > 1e-6 * p.setup.total;
                let due = rates(&g, YEAR).photoionization;
                ensure!(
                    close(rate, due, 1e-6),
                    "rates of the sweep are lost with rotating directions: at {time:e} s, {arriving:e} photons per second arrive in particle {i}, which make the photoionization rate {due:e}, not {rate:e}"
                );
            }
        }
    }
    if case.sources.is_empty() || p.moments.len() < 2 || (with_rates && !light) {
        return Ok("".into());
    }
    Ok(format!("{} ranks", case.ranks).into())
}

/// The direction set of a parameter.
fn given_case(vectors: &Vec<([f64; 3], f64)>) -> Outcome {
    let given: Vec<[f64; 3]> = vectors.iter().map(|(v, e)| v.map(|x| x * 10f64.powf(*e))).collect();
    let length = |v: &[f64; 3]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if vectors.iter().any(|(v, _)| length(v) < 0.1) {
        return Ok("".into());
    }
    let found = hook::directions_explicit(&given);
    ensure_eq!(found.len(), given.len(), "number of directions");
    for (i, ((v, _), d)) in vectors.iter().zip(&found).enumerate() {
        let l = length(v);
        ensure!((0..3).all(|k| (d[k] - v[k] / l).abs() < 1e-12), "direction {i} is {d:?}, given as {:?}", given[i]);
    }
    Ok(format!("{} directions", if found.len() < 10 { "1-9" } else { "10 and more" }).into())
}

fn number_case(n: &usize) -> Outcome {
    let found = std::panic::catch_unwind(|| hook::directions_number(*n));
    let known = [1, 16, 21, 32, 64, 84].contains(n);
    let Ok(found) = found else {
        ensure!(!known, "no set of {n} directions");
        return Ok("refused".into());
    };
    ensure!(*n > 0, "a run without directions");
    ensure_eq!(found.len(), *n, "directions in the set of {n}");
    let mut sum = [0.0; 3];
    for (i, d) in found.iter().enumerate() {
        ensure!((d.iter().map(|x| x * x).sum::<f64>().sqrt() - 1.0).abs() < 3e-6, "direction {i} of {n} is {d:?}");
        for e in &found[..i] {
            let dot: f64 = (0..3).map(|k| d[k] * e[k]).sum();
            ensure!(dot < 1.0 - 2.0 / *n as f64, "directions {d:?} and {e:?} of the set of {n} are close to each other");
        }
        for k in 0..3 {
            sum[k] += d[k];
        }
    }
    ensure!(*n == 1 || sum.iter().all(|s| s.abs() < 3e-6 * *n as f64), "the directions of the set of {n} add up to {sum:?}");
    Ok("set".into())
}

pub fn run_directions(mut ctx: Ctx) {
    let n = ctx.cases(100_000, 2_000_000);
    ctx.stage(
        "given",
        "lists of 1-100 vectors of lengths from 1e-30 to 1e30; non-trivial: no vector almost zero in its scale",
        n,
        prop::collection::vec((prop::array::uniform3(prop_oneof![4 => -1.0..1.0f64, 1 => Just(0.0), 1 => Just(1.0)]), prop_oneof![Just(0.0), -30.0..30.0f64]), 1..101),
        given_case,
    );
    let n = ctx.cases(1_000, 100_000);
    ctx.stage(
        "numbers",
        "numbers of directions 0-200, mostly those there are sets of; all non-trivial",
        n,
        prop_oneof![4 => prop::sample::select(vec![1usize, 16, 21, 32, 64, 84]), 1 => 0..200usize],
        number_case,
    );
    let n = ctx.cases(64, 1500);
    ctx.stage(
        "rotated",
        "runs of the program as in C22 with rotating directions: finite positive results at the same times; non-trivial: with sources, and at least one step",
        n,
        run_case(30),
        |case: &RunCase| rotated_case(case, Rotated::All),
    );
    let n = ctx.cases(24, 200);
    ctx.stage(
        "rotated_rates",
        "runs of the program as in C22 with rotating directions, and the rates in snapshots after every step; non-trivial: light arrived",
        n,
        run_case(30).prop_map(|mut case| {
            case.interval = None;
            case.first = None;
            case.fields = None;
            case.final_time = case.final_time % 8 + 1;
            case
        }),
        |case: &RunCase| rotated_case(case, Rotated::Rates),
    );
    ctx.stage(
        "rotated_sign",
        "a run with a single rotating direction and two timestep levels, found by the stage before; non-trivial: with sources, and at least one step",
        1,
        Just(serde_json::from_str::<RunCase>(NEGATIVE_RATES).unwrap()),
        |case: &RunCase| rotated_case(case, Rotated::Sign),
    );
    ctx.finish()
}

pub fn keep_environment() {
    let _ = ENVIRONMENT.set(std::env::vars().collect());
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(320, 4000);
    ctx.stage(
        "states",
        "runs of the program on 1-4 ranks: 10-40 gas cells of a Voronoi grid given by file, split over 1-4 input files in any units, with and without cosmology, sources at particles, 1-3 timestep levels, up to about 8 steps, any snapshot times and files; non-trivial: with sources, and at least one step",
        n,
        run_case(40),
        states_case,
    );
    ctx.finish()
}
