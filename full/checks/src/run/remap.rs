//! C27: ionization and temperature taken over from the snapshots of an earlier run.
use subsweep::components::Position;
use subsweep::units::{Length, VecLength};

use super::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RemapCase {
    run: RunCase,
    /// Scale factor of the earlier run, if there is a cosmology.
    before: f64,
    /// Names of the particles of the earlier run.
    points: Vec<u32>,
    /// They are within this part of the box.
    corner: [f64; 3],
    size: f64,
    /// Numbers of the snapshots.
    numbers: Vec<u32>,
    padding: usize,
    /// Relative sizes of the files of a snapshot.
    files: Vec<u32>,
    /// Output folders are on a file system that lists files in the order they were made in.
    memory: bool,
}

fn remap_case() -> impl Strategy<Value = RemapCase> {
    (
        run_case(30),
        0.05..0.9f64,
        prop::collection::vec(any::<u32>(), 1..80),
        prop::array::uniform3(0.0..1.0f64),
        prop_oneof![2 => Just(1.0), 1 => 0.01..1.0f64, 1 => Just(1.2)],
        prop::collection::btree_set(prop_oneof![Just(0u32), 0..20u32, 0..2000u32], 1..4),
        1..5usize,
        prop::collection::vec(1..10u32, 1..13),
        any::<bool>(),
    )
        .prop_map(|(mut run, before, points, corner, size, numbers, padding, files, memory)| {
            run.fields = None;
            run.final_time %= 9;
            RemapCase { run, before, points, corner: corner.map(|x| x * (1.0 - size)), size, numbers: numbers.into_iter().collect(), padding, files, memory }
        })
}

/// Position as a part of the box, fraction, temperature.
type Point = ([f64; 3], f64, f64);

impl RemapCase {
    fn points(&self) -> Vec<Point> {
        let point = |name: &u32| {
            let x = [0, 1, 2].map(|k| self.corner[k] + self.size * random(*name, 80 + k as u32));
            (x, random(*name, 83).powi(4), 10f64.powf(2.0 + 4.0 * random(*name, 84)))
        };
        self.points.iter().map(point).collect()
    }

    fn write(&self, points: &[Point], side: f64, folder: &Path) {
        fs::create_dir_all(folder).unwrap();
        fs::write(folder.join("notes.txt"), "no folder").unwrap();
        let n = points.len();
        let sum: u32 = self.files.iter().sum();
        let digits = self.files.len().to_string().len();
        for (s, number) in self.numbers.iter().enumerate() {
            let path = folder.join(format!("{number:0w$}", w = self.padding));
            fs::create_dir_all(&path).unwrap();
            let mut ranges = vec![];
            let (mut done, mut until) = (0, 0);
            for (k, size) in self.files.iter().enumerate() {
                until += size;
                let end = n * until as usize / sum as usize;
                // There is no file for no particles.
                if end > done {
                    ranges.push((k, done..end));
                }
                done = end;
            }
            // In whatever order.
            ranges.sort_by(|a, b| random(self.run.seed ^ a.0 as u32, 85 + s as u32).total_cmp(&random(self.run.seed ^ b.0 as u32, 85 + s as u32)));
            for (k, range) in ranges {
                let file = File::create(path.join(format!("{k:0digits$}.hdf5"))).unwrap();
                let rows = &points[range];
                let attributes = |set: &hdf5::Dataset, name: &str| {
                    let d = dimension(name);
                    set.new_attr::<f64>().shape(()).create("scale_factor_si").unwrap().write_scalar(&1.0).unwrap();
                    for (name, value) in
                        [("scaling_length", d[0]), ("scaling_time", d[1]), ("scaling_mass", d[2]), ("scaling_temperature", d[3]), ("scaling_a", 0), ("scaling_h", 0)]
                    {
                        set.new_attr::<i32>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
                    }
                };
                let scalar = |name: &str, value: f64| file.new_attr::<f64>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
                scalar("time", s as f64 * 1e13);
                if let Some(u) = &self.run.universe {
                    // The universe may have expanded during that run, too.
                    let a = self.before * (1.0 + 0.1 * s as f64);
                    scalar("scale_factor", a);
                    scalar("redshift", 1.0 / a - 1.0);
                    scalar("little_h", u.h);
                }
                if s == 0 {
                    let factor = self.run.universe.as_ref().map(|u| self.before / u.a).unwrap_or(1.0) * side;
                    let values: Vec<Position> = rows.iter().map(|r| Position(VecLength::new(Length::meters(r.0[0] * factor), Length::meters(r.0[1] * factor), Length::meters(r.0[2] * factor)))).collect();
                    let set = file.new_dataset::<Position>().shape(rows.len()).create("position").unwrap();
                    set.write_slice(&values, 0..rows.len()).unwrap();
                    attributes(&set, "position");
                }
                // What was before the last snapshot does not matter.
                let last = s + 1 == self.numbers.len();
                for (name, value) in [("ionized_hydrogen_fraction", &(|r: &Point| if last { r.1 } else { 0.99 }) as &dyn Fn(&Point) -> f64), ("temperature", &|r: &Point| if last { r.2 } else { 1e8 })] {
                    let set = file.new_dataset::<f64>().shape(rows.len()).create(name).unwrap();
                    set.write_slice(&rows.iter().map(value).collect::<Vec<f64>>(), 0..rows.len()).unwrap();
                    attributes(&set, name);
                }
            }
        }
    }
}

/// A folder in memory.
struct Memory(PathBuf);

impl Memory {
    fn new() -> Memory {
        let path = PathBuf::from(format!("/dev/shm/verif-remap-{}", std::process::id()));
        let _ = fs::remove_dir_all(&path);
        fs::create_dir_all(&path).unwrap();
        Memory(path)
    }
}

impl Drop for Memory {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn remapped_case(case: &RemapCase) -> Outcome {
    let run = &case.run;
    let mut setup = run.setup();
    let points = case.points();
    let memory = if case.memory { Some(Memory::new()) } else { None };
    let folder = Folder::new();
    let path = memory.as_ref().map(|m| m.0.join("snapshots")).unwrap_or(folder.0.join("earlier/snapshots"));
    setup.remap = Some(path.display().to_string());
    let side = setup.side;
    let (mut hotter, mut more) = (0, 0);
    for c in &mut setup.cells {
        let distance = |p: &Point| (0..3).map(|k| (p.0[k] * side - c.center[k]).powi(2)).sum::<f64>();
        let mut nearest: Vec<&Point> = points.iter().collect();
        nearest.sort_by(|a, b| distance(a).total_cmp(&distance(b)));
        if nearest.len() > 1 && close(distance(nearest[0]), distance(nearest[1]), 1e-9) && nearest[0].0 != nearest[1].0 {
            return Ok("".into());
        }
        let p = nearest[0];
        hotter += (p.2 > c.temperature) as usize;
        more += (p.1 > c.fraction) as usize;
        c.temperature = c.temperature.max(p.2);
        c.fraction = c.fraction.max(p.1);
    }
    let p = perform_in(run, setup, &[], folder, |_, _, _| case.write(&points, side, &path))?;
    let expected = check_schedule(run, &p)?;
    check_states(&p, &expected)?;
    let n = p.setup.cells.len();
    if hotter == 0 || more == 0 || hotter == n || more == n {
        return Ok("".into());
    }
    Ok(format!("{} ranks, {}", run.ranks, if run.universe.is_some() { "cosmology" } else { "no cosmology" }).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(600, 8000);
    ctx.stage(
        "remap",
        "runs of the program on 1-4 ranks as in C22 that take over the state of 1-80 particles, in the whole box or in a part of it, from 1-3 snapshots of up to 12 files; non-trivial: some cells but not all become hotter, and some but not all more ionized",
        n,
        remap_case(),
        remapped_case,
    );
    ctx.finish()
}
