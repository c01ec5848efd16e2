//! C23: where output goes, what becomes of older output, and runs repeated from the copy of their parameters.
//!
//! The program may delete folders here, so it runs as a user who owns nothing but the folder of the case.
use std::collections::BTreeSet;
use std::os::unix::fs::{lchown, MetadataExt};

use super::*;

const NOBODY: u32 = 65534;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OutputCase {
    run: RunCase,
    /// What the parameters say about existing output: nothing, or an index into MODES.
    mode: Option<usize>,
    /// Files there before, if the folder exists: kind and name.
    old: Option<Vec<(u32, u32)>>,
    /// Names of folders and files that differ from the defaults.
    names: [u32; 4],
}

const MODES: [&str; 3] = ["panic", "overwrite", "delete"];

fn output_case() -> impl Strategy<Value = OutputCase> {
    (
        run_case(20),
        prop_oneof![1 => Just(None), 4 => (0..3usize).prop_map(Some)],
        prop_oneof![1 => Just(None), 5 => prop::collection::vec((any::<u32>(), any::<u32>()), 0..12).prop_map(Some)],
        prop::array::uniform4(any::<u32>()),
    )
        .prop_map(|(mut run, mode, old, names)| {
            run.names.truncate(20);
            OutputCase { run, mode, old, names }
        })
}

impl OutputCase {
    /// Of snapshots, time series, parameters and performance.
    fn names(&self) -> [&'static str; 4] {
        let pick = |i: usize, list: [&'static str; 4]| list[self.names[i] as usize % 4];
        [
            pick(0, ["snapshots", "snapshots", "s", "data/snaps"]),
            pick(1, ["time_series", "time_series", "t", "data/series"]),
            pick(2, ["parameters.yml", "parameters.yml", "used.yml", "p"]),
            pick(3, ["performance.yml", "performance.yml", "times.yml", "q"]),
        ]
    }

    fn old_files(&self) -> Vec<(String, Vec<u8>)> {
        let [snapshots, series, parameters, performance] = self.names();
        let mut files = BTreeMap::new();
        for (kind, name) in self.old.iter().flatten() {
            let path = match kind % 9 {
                0 => format!("{snapshots}/{:03}/{}.hdf5", name % 3, name / 3 % 3),
                1 => format!("{snapshots}/{:03}/{}.hdf5", 990 + name % 3, name / 3 % 3),
                2 => format!("{series}/temperature_mass_average.yml"),
                3 => format!("{series}/something.yml"),
                4 => parameters.to_string(),
                5 => performance.to_string(),
                6 => format!("other/{}/file", name % 3),
                7 => format!(".hidden{}", name % 3),
                _ => format!("logs/rank_{}.log", name % 12),
            };
            files.insert(path, format!("- old {name}\n").repeat(1 + *name as usize % 2000).into_bytes());
        }
        files.into_iter().collect()
    }
}

/// All files and folders below (folders end with a slash), without those of these names at the top.
fn tree(root: &Path, without: &[&str]) -> BTreeMap<String, Vec<u8>> {
    fn visit(root: &Path, prefix: &str, map: &mut BTreeMap<String, Vec<u8>>) {
        let mut entries: Vec<_> = fs::read_dir(root).map(|d| d.map(|e| e.unwrap()).collect()).unwrap_or_default();
        entries.sort_by_key(|e| e.file_name());
        for e in entries {
            let name = format!("{prefix}{}", e.file_name().to_str().unwrap());
            if e.file_type().unwrap().is_dir() {
                visit(&e.path(), &format!("{name}/"), map);
                map.insert(format!("{name}/"), vec![]);
            } else {
                map.insert(name, fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut map = BTreeMap::new();
    visit(root, "", &mut map);
    map.retain(|k, _| !without.iter().any(|w| k == w || k.starts_with(&format!("{w}/"))));
    map
}

fn differences(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Vec<String> {
    let mut list: Vec<String> = a.keys().filter(|k| !b.contains_key(*k)).map(|k| format!("{k} is gone")).collect();
    list.extend(b.keys().filter(|k| !a.contains_key(*k)).map(|k| format!("{k} is new")));
    list.extend(a.iter().filter(|(k, v)| b.get(*k).map(|w| w != *v).unwrap_or(false)).map(|(k, _)| format!("{k} has changed")));
    list
}

fn give(path: &Path) {
    lchown(path, Some(NOBODY), Some(NOBODY)).expect("chown");
    if path.is_dir() {
        for e in fs::read_dir(path).unwrap() {
            give(&e.unwrap().path());
        }
    }
}

/// A folder that belongs to nobody, in a place nobody can reach, with the program in it.
struct Cage {
    root: PathBuf,
}

impl Cage {
    fn new() -> Cage {
        let root = PathBuf::from("/tmp").join(format!("subsweep-verif-{}", std::process::id()));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("case")).unwrap();
        fs::create_dir_all(root.join("tmp")).unwrap();
        let program = std::env::current_exe().unwrap().parent().unwrap().join("subsweep");
        fs::copy(program, root.join("subsweep")).expect("copy of the program");
        Cage { root }
    }

    fn case(&self) -> PathBuf {
        self.root.join("case")
    }

    fn run(&self, ranks: usize, arguments: &[String]) -> Result<Run, String> {
        give(&self.case());
        give(&self.root.join("tmp"));
        let program = self.root.join("subsweep");
        for limit in [60, 150] {
            let log = fs::File::create(self.root.join("log")).unwrap();
            let mut child = Command::new("mpirun")
                .args(["-np", &ranks.to_string()])
                .arg(&program)
                .args(arguments)
                .current_dir(self.case())
                .env_clear()
                .envs(ENVIRONMENT.get().unwrap().iter().cloned())
                .env("HOME", self.root.join("tmp"))
                .env("TMPDIR", self.root.join("tmp"))
                .uid(NOBODY)
                .gid(NOBODY)
                .stdin(Stdio::null())
                .stdout(log.try_clone().unwrap())
                .stderr(log)
                .process_group(0)
                .spawn()
                .expect("mpirun as nobody");
            if let Some(status) = wait(&mut child, limit) {
                return Ok(Run { status, log: fs::read_to_string(self.root.join("log")).unwrap_or_default() });
            }
        }
        Err("the run does not end".into())
    }
}

impl Drop for Cage {
    fn drop(&mut self) {
        if std::env::var("VERIF_KEEP").is_err() {
            let _ = fs::remove_dir_all(&self.root);
        }
    }
}

/// What a run leaves in its output folder.
fn listing(case: &OutputCase, p: &Performed) -> BTreeSet<String> {
    let [snapshots, series, parameters, performance] = case.names();
    let mut files = BTreeSet::new();
    files.extend(p.snapshots.iter().flat_map(|s| s.files.iter().map(move |f| format!("{snapshots}/{}/{f}", s.number))));
    files.extend(p.series.keys().map(|k| format!("{series}/{k}.yml")));
    files.insert(parameters.to_string());
    files.insert(performance.to_string());
    files.extend((0..case.run.ranks).map(|r| format!("logs/rank_{r}.log")));
    files
}

fn collect_from(case: &OutputCase, setup: Setup, out: &Path) -> Result<Performed, String> {
    let [snapshots, series, parameters, _] = case.names();
    let p = collect(&case.run, setup, &out.join(snapshots), &out.join(series), &out.join(parameters))?;
    let expected = check_schedule(&case.run, &p)?;
    check_states(&p, &expected)?;
    Ok(p)
}

fn only_files(t: &BTreeMap<String, Vec<u8>>) -> BTreeSet<String> {
    t.keys().filter(|k| !k.ends_with('/')).cloned().collect()
}

fn existing_case(case: &OutputCase) -> Outcome {
    let cage = Cage::new();
    let dir = cage.case();
    let setup = case.run.setup();
    let input = case.run.write_particles(&setup, &dir);
    case.run.write_grid(&setup, &dir.join("grid.hdf5"));
    let (text, mut overrides) = case.run.parameters(&setup, &dir, &input);
    fs::write(dir.join("parameters.yml"), &text).unwrap();
    let names = case.names();
    for (key, name) in ["snapshots_dir", "time_series_dir", "used_parameters_filename", "performance_data_filename"].iter().zip(names) {
        overrides.push(format!("output/{key}:{name}"));
    }
    if let Some(m) = case.mode {
        overrides.push(format!("output/handle_existing_output:{}", MODES[m]));
    }
    // Neighbours of the output folder, which are nobody's business.
    for path in ["out.old/snapshots/000/0.hdf5", "output/file", "snapshots/000/0.hdf5"] {
        let path = dir.join(path);
        fs::create_dir_all(path.parent().unwrap()).unwrap();
        fs::write(path, "neighbour").unwrap();
    }
    let out = dir.join("out");
    let old = case.old_files();
    if case.old.is_some() {
        fs::create_dir_all(&out).unwrap();
        for (path, content) in &old {
            let path = out.join(path);
            fs::create_dir_all(path.parent().unwrap()).unwrap();
            fs::write(path, content).unwrap();
        }
    }
    let (before, around) = (tree(&out, &[]), tree(&dir, &["out"]));
    let mut arguments = vec![dir.join("parameters.yml").display().to_string()];
    arguments.extend(overrides);
    let run = cage.run(case.run.ranks, &arguments)?;
    let mode = MODES[case.mode.unwrap_or(0)];
    let d = differences(&around, &tree(&dir, &["out"]));
    ensure!(d.is_empty(), "a run changes what is outside of its output folder: {d:?}");
    let after = tree(&out, &[]);
    if case.old.is_some() && mode == "panic" {
        ensure!(run.status != Some(0), "a run does not stop although its output folder exists");
        let d = differences(&before, &after);
        ensure!(d.is_empty(), "a run that may not touch existing output changes it: {d:?}");
        return Ok("refused".into());
    }
    ensure!(run.status == Some(0), "the run ends with status {:?} ({mode}, existing output: {}): {}", run.status, case.old.is_some(), tail(&run.log));
    // Of the snapshots, only those of this run are readable.
    let [snapshots, series, parameters, _] = names;
    let mut kept = BTreeMap::new();
    if mode == "overwrite" {
        let times: usize = expected_snapshots(&case.run, &expected_moments(&case.run, &setup)).len();
        let padding = case.run.padding.unwrap_or(3);
        let digits = case.run.output_files.unwrap_or(1).to_string().len();
        let (n, files) = (setup.cells.len(), case.run.output_files.unwrap_or(1));
        let written = |path: &str| -> bool {
            let snapshot = (0..times).any(|k| {
                (0..files).any(|f| (n / files > 0 || f + 1 == files) && path == format!("{snapshots}/{k:0padding$}/{f:0digits$}.hdf5"))
            });
            snapshot
                || path == format!("{series}/temperature_mass_average.yml")
                || path == parameters
                || path == names[3]
                || (0..case.run.ranks).any(|r| path == format!("logs/rank_{r}.log"))
        };
        for (path, content) in &old {
            if !written(path) {
                ensure!(after.get(path) == Some(content), "a file of older output, {path}, {}", if after.contains_key(path) { "has changed" } else { "is gone" });
                kept.insert(path.clone(), content.clone());
                fs::remove_file(out.join(path)).unwrap();
            }
        }
        // Folders left empty by that.
        for (path, _) in tree(&out, &[]).iter().filter(|(k, _)| k.ends_with('/')) {
            let _ = fs::remove_dir(out.join(path));
        }
        for (path, _) in tree(&out, &[]).iter().filter(|(k, _)| k.ends_with('/')) {
            let _ = fs::remove_dir(out.join(path));
        }
    }
    let p = collect_from(case, setup, &out)?;
    let wanted = listing(case, &p);
    let found = only_files(&tree(&out, &[]));
    let extra: Vec<_> = old.iter().map(|o| &o.0).filter(|o| found.contains(*o) && !wanted.contains(*o)).collect();
    let missing: Vec<_> = wanted.difference(&found).collect();
    ensure!(extra.is_empty() && missing.is_empty(), "output folder ({mode}, existing output: {}): {extra:?} should not be there, {missing:?} should", case.old.is_some());
    // The same again from the copy of the parameters.
    let copy = dir.join("copy.yml");
    fs::copy(out.join(parameters), &copy).unwrap();
    let second = dir.join("second");
    let run = cage.run(case.run.ranks, &[copy.display().to_string(), format!("output/output_dir:{}", second.display())])?;
    ensure!(run.status == Some(0), "a run with the copy of the parameters ends with status {:?}: {}", run.status, tail(&run.log));
    let q = collect_from(case, p.setup, &second).map_err(|e| format!("with the copy of the parameters: {e}"))?;
    let (found, wanted) = (only_files(&tree(&second, &[])), listing(case, &q));
    ensure!(wanted.is_subset(&found), "files of the run with the copy of the parameters: {found:?}, expected {wanted:?}");
    ensure!(fs::metadata(&second).unwrap().uid() == NOBODY, "the check is not contained");
    Ok(format!("{mode}, {}", if case.old.is_none() { "no output before" } else if kept.is_empty() { "all replaced" } else { "some kept" }).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(200, 4000);
    ctx.stage(
        "existing",
        "runs of the program as in C22 into a folder that does not exist or holds up to 12 older files (some of names the run uses), with each way to handle them and any names of folders and files, and again from the copy of the parameters; all non-trivial",
        n,
        output_case(),
        existing_case,
    );
    ctx.finish()
}
