//! C24: parameter files and overrides.
use std::collections::BTreeMap;

use engine::{ensure, ensure_eq, no_panic, Ctx, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use subsweep::parameters::*;
use subsweep::prelude::Simulation;
use subsweep::verif::{GridConstructionParameters, Override, ParameterFileContents};

use crate::mpiutil::random;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Count,
    Number,
    Flag,
    Time,
    Rate,
    Length,
    Fraction,
    Text,
    Texts,
    Fields,
    Existing,
    Box,
    /// Omega_0 and omega_lambda.
    Density,
}
use Kind::*;

#[derive(Clone, Copy)]
enum Missing {
    Required,
    Is(&'static str),
}
use Missing::*;

struct Section {
    name: &'static str,
    /// A single value instead of keys.
    scalar: Option<Kind>,
    keys: &'static [(&'static str, Kind, Missing)],
    /// Whether nothing at all is a valid section, too.
    absent: bool,
}

const SECTIONS: [Section; 7] = [
    Section {
        name: "sweep",
        scalar: None,
        absent: false,
        keys: &[
            ("directions", Count, Required),
            ("num_timestep_levels", Count, Required),
            ("periodic", Flag, Required),
            ("max_timestep", Time, Required),
            ("rotate_directions", Flag, Is("false")),
            ("significant_rate_threshold", Rate, Is("0")),
            ("timestep_safety_factor", Fraction, Is("0.1")),
            ("chemistry_timestep_safety_factor", Fraction, Is("0.1")),
            ("check_deadlock", Flag, Is("false")),
            ("prevent_cooling", Flag, Is("true")),
            ("num_tasks_to_solve_before_send_receive", Count, Is("10000")),
        ],
    },
    Section {
        name: "output",
        scalar: None,
        absent: false,
        keys: &[
            ("time_between_snapshots", Time, Is("0")),
            ("time_first_snapshot", Time, Is("null")),
            ("output_dir", Text, Is("output")),
            ("snapshots_dir", Text, Is("snapshots")),
            ("time_series_dir", Text, Is("time_series")),
            ("fields", Fields, Is("null")),
            ("snapshot_padding", Count, Is("3")),
            ("used_parameters_filename", Text, Is("parameters.yml")),
            ("handle_existing_output", Existing, Is("panic")),
            ("performance_data_filename", Text, Is("performance.yml")),
            ("num_output_files", Count, Is("1")),
        ],
    },
    Section {
        name: "cosmology",
        scalar: None,
        absent: true,
        keys: &[("a", Number, Required), ("h", Number, Required), ("params", Density, Is("null"))],
    },
    Section { name: "simulation", scalar: None, absent: false, keys: &[("final_time", Time, Is("null"))] },
    Section { name: "input", scalar: None, absent: false, keys: &[("paths", Texts, Required)] },
    Section { name: "grid", scalar: None, absent: false, keys: &[("initial_search_radius", Length, Is("null"))] },
    Section { name: "box_size", scalar: Some(Box), absent: false, keys: &[] },
];

/// Whether it is valid, as written in a file, and what it means.
#[derive(Clone, Debug)]
struct Item {
    valid: bool,
    text: Value,
    meaning: Value,
}

fn number(x: f64) -> Value {
    Value::Number(x.into())
}

fn text(x: &str) -> Value {
    Value::String(x.into())
}

fn item(kind: Kind, seed: u32, valid: bool) -> Item {
    let r = |k: u32| random(seed, 500 + k);
    let pick = |list: &[&'static str]| list[(r(0) * list.len() as f64) as usize];
    if !valid {
        let text = match kind {
            Text | Existing => Value::Sequence(vec![number(1.0)]),
            Texts | Fields => text("some thing"),
            Density => Value::Mapping([(text("omega_0"), number(0.3))].into_iter().collect()),
            Time | Rate | Length | Box => text(pick(&["3 kg", "3 apples", "s"])),
            _ => text(pick(&["oops", "1 s"])),
        };
        return Item { valid, text, meaning: Value::Null };
    }
    let x = (r(1) * 1e4).round() / 1e2;
    let quantity = |unit: &str, factor: f64| (text(&format!("{x} {unit}")), number(x * factor));
    let (text, meaning) = match kind {
        Count => {
            let n = (r(1) * 100.0) as u64;
            (Value::Number(n.into()), number(n as f64))
        }
        Number | Fraction => (number(x), number(x)),
        Flag => (Value::Bool(r(1) < 0.5), Value::Bool(r(1) < 0.5)),
        Time => match (r(2) * 3.0) as usize {
            0 => quantity("s", 1.0),
            1 => quantity("yr", 3.15576e7),
            _ => quantity("Myr", 3.15576e13),
        },
        Rate => quantity("s^-1", 1.0),
        Length => match (r(2) * 3.0) as usize {
            0 => quantity("m", 1.0),
            1 => quantity("km", 1e3),
            _ => quantity("kpc", 3.0857e19),
        },
        Box => match (r(2) * 3.0) as usize {
            0 => quantity("m", 1.0),
            1 => quantity("kpc", 3.0857e19),
            _ => (text(&format!("{x} ckpc/h")), text(&format!("comoving {x}"))),
        },
        Text => {
            let t = text(pick(&["out", "a b", "x/y", "12", "true", "null", "a:b", "~", "- x", "é", "'", ""]));
            (t.clone(), t)
        }
        Texts => {
            let n = (r(2) * 3.0) as u32;
            let t = Value::Sequence((0..n).map(|k| item(Text, seed ^ (k + 1), true).text).collect());
            (t.clone(), t)
        }
        Fields => match (r(2) * 3.0) as usize {
            0 => (text("all"), Value::Null),
            1 => (Value::Null, Value::Null),
            _ => {
                let t = Value::Sequence(vec![text("position"), text(pick(&["density", "temperature"]))]);
                (t.clone(), t)
            }
        },
        Existing => {
            let t = text(pick(&["panic", "overwrite", "delete"]));
            (t.clone(), t)
        }
        Density => {
            let t = Value::Mapping([(text("omega_0"), number(x)), (text("omega_lambda"), number(x + 0.5))].into_iter().collect());
            (t.clone(), t)
        }
    };
    Item { valid, text, meaning }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Given {
    Omitted,
    /// Required keys, and optional ones by bits; seed of the values; changes.
    Keys(u32, u32, Vec<Change>),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Drop(u32),
    Unknown,
    Wrong(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Place {
    Whole(u32),
    Key(u32),
    /// cosmology/params/omega_0 and the like.
    Nested(u32),
    Unknown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Over {
    section: u32,
    place: Place,
    seed: u32,
    valid: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    sections: Vec<Given>,
    overrides: Vec<Over>,
    /// A section no one knows: in the file, in an override.
    stray: (bool, bool),
}

/// A section as the model sees it.
#[derive(Clone, Debug)]
enum Model {
    Absent,
    Single(Item),
    Keys(BTreeMap<String, Item>),
}

fn keys(s: &Section, bits: u32, seed: u32, changes: &[Change]) -> Model {
    let item_of = |i: usize, kind: Kind| {
        let wrong = changes.iter().any(|c| matches!(c, Change::Wrong(k) if *k as usize % s.keys.len().max(1) == i));
        item(kind, seed.wrapping_add(i as u32 * 7919), !wrong)
    };
    if let Some(kind) = s.scalar {
        return Model::Single(item_of(0, kind));
    }
    let mut map = BTreeMap::new();
    for (i, (name, kind, default)) in s.keys.iter().enumerate() {
        let dropped = changes.iter().any(|c| matches!(c, Change::Drop(k) if *k as usize % s.keys.len() == i));
        if !dropped && (matches!(default, Required) || bits >> i & 1 == 1) {
            map.insert(name.to_string(), item_of(i, *kind));
        }
    }
    if changes.iter().any(|c| matches!(c, Change::Unknown)) {
        map.insert("nonsense".into(), item(Count, seed, false));
    }
    Model::Keys(map)
}

fn written(m: &Model) -> Option<Value> {
    match m {
        Model::Absent => None,
        Model::Single(i) => Some(i.text.clone()),
        Model::Keys(k) => Some(Value::Mapping(k.iter().map(|(n, i)| (text(n), i.text.clone())).collect())),
    }
}

fn flow(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}

impl Over {
    /// The argument on the command line, and its effect.
    fn apply(&self, models: &mut [Model]) -> String {
        let index = self.section as usize % SECTIONS.len();
        let s = &SECTIONS[index];
        let model = &mut models[index];
        let set = |model: &mut Model, key: &str, item: Item| {
            match model {
                Model::Absent => *model = Model::Keys([(key.to_string(), item)].into_iter().collect()),
                Model::Keys(k) => {
                    k.insert(key.to_string(), item);
                }
                // There is no key in a number.
                Model::Single(i) => i.valid = false,
            };
        };
        match &self.place {
            Place::Key(k) if s.scalar.is_none() => {
                let (name, kind, _) = s.keys[*k as usize % s.keys.len()];
                let item = item(kind, self.seed, self.valid);
                let argument = format!("{}/{name}:{}", s.name, flow(&item.text));
                set(model, name, item);
                argument
            }
            Place::Nested(k) if s.name == "cosmology" => {
                let name = ["omega_0", "omega_lambda"][*k as usize % 2];
                let value = item(Number, self.seed, true);
                let argument = format!("cosmology/params/{name}:{}", flow(&value.text));
                let mut params = match model {
                    Model::Keys(keys) => keys.get("params").map(|i| i.text.clone()).unwrap_or(Value::Mapping(serde_yaml::Mapping::new())),
                    _ => Value::Mapping(serde_yaml::Mapping::new()),
                };
                let map = params.as_mapping_mut().unwrap();
                map.insert(text(name), value.text);
                let valid = map.len() == 2;
                set(model, "params", Item { valid, meaning: params.clone(), text: params });
                argument
            }
            Place::Unknown => {
                let item = item(Count, self.seed, false);
                let argument = format!("{}/nonsense:{}", s.name, flow(&item.text));
                set(model, "nonsense", item);
                argument
            }
            Place::Whole(bits) | Place::Key(bits) | Place::Nested(bits) => {
                let changes = if self.valid { vec![] } else { vec![Change::Wrong(self.seed)] };
                let new = keys(s, *bits, self.seed, &changes);
                let argument = format!("{}:{}", s.name, flow(&written(&new).unwrap()));
                *model = new;
                argument
            }
        }
    }
}

/// What the section means: None if it has to be rejected.
fn meaning(s: &Section, m: &Model) -> Option<Value> {
    let default = |d: &Missing| match d {
        Required => None,
        Is(t) => {
            let v: Value = serde_yaml::from_str(t).unwrap();
            Some(v.as_f64().map(number).unwrap_or(v))
        }
    };
    match m {
        Model::Single(i) => i.valid.then(|| i.meaning.clone()),
        Model::Absent if s.scalar.is_some() => None,
        Model::Absent if s.absent => Some(Value::Null),
        Model::Absent => meaning(s, &Model::Keys(BTreeMap::new())),
        Model::Keys(keys) => {
            let mut map = serde_yaml::Mapping::new();
            for (name, item) in keys {
                if !s.keys.iter().any(|k| k.0 == name) || !item.valid {
                    return None;
                }
            }
            for (name, _, d) in s.keys {
                let value = match keys.get(*name) {
                    Some(item) => item.meaning.clone(),
                    None => default(d)?,
                };
                map.insert(text(name), value);
            }
            Some(Value::Mapping(map))
        }
    }
}

/// Quantities as plain numbers in SI units.
fn plain(s: &Section, v: Value) -> Value {
    let one = |kind: Kind, v: Value| -> Value {
        match (kind, &v) {
            (Box, Value::String(t)) if t.starts_with("comoving") => v,
            (Fields, Value::String(t)) if t == "all" => Value::Null,
            (Time | Rate | Length | Box, Value::String(t)) => {
                let mut words = t.split_whitespace();
                let x: f64 = words.next().and_then(|w| w.parse().ok()).unwrap_or(f64::NAN);
                number(x)
            }
            (Count | Number | Fraction, Value::String(t)) => number(t.parse().unwrap_or(f64::NAN)),
            (_, Value::Number(n)) => number(n.as_f64().unwrap()),
            _ => v,
        }
    };
    match (s.scalar, v) {
        (Some(kind), v) => one(kind, v),
        (None, Value::Mapping(map)) => Value::Mapping(
            map.into_iter()
                .map(|(k, v)| {
                    let kind = s.keys.iter().find(|x| Some(x.0) == k.as_str()).map(|x| x.1).unwrap_or(Text);
                    (k, one(kind, v))
                })
                .collect(),
        ),
        (None, v) => v,
    }
}

fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs())
        }
        (Value::Mapping(x), Value::Mapping(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (Value::Sequence(x), Value::Sequence(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same(v, w)),
        _ => a == b,
    }
}

fn read(name: &str, sim: &mut Simulation) -> Value {
    match name {
        "sweep" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<SweepParameters>()),
        "output" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<OutputParameters>()),
        "cosmology" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<Cosmology>()),
        "simulation" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<SimulationParameters>()),
        "input" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<InputParameters>()),
        "grid" => serde_yaml::to_value(sim.add_parameter_type_and_get_result::<GridConstructionParameters>()),
        _ => {
            return match sim.add_parameter_type_and_get_result::<SimulationBoxParameters>() {
                SimulationBoxParameters::Normal(l) => number(l.in_meters()),
                SimulationBoxParameters::Comoving(l) => {
                    let t = serde_yaml::to_value(l).unwrap();
                    let x: f64 = t.as_str().unwrap().split_whitespace().next().unwrap().parse().unwrap();
                    text(&format!("comoving {}", (x / 3.0857e19 * 1e6).round() / 1e6))
                }
            }
        }
    }
    .unwrap()
}

fn file_case(c: &FileCase) -> Outcome {
    let mut models: Vec<Model> = SECTIONS
        .iter()
        .zip(&c.sections)
        .map(|(s, g)| match g {
            Given::Omitted => Model::Absent,
            Given::Nothing => Model::Absent,
            Given::Keys(bits, seed, changes) => keys(s, *bits, *seed, changes),
        })
        .collect();
    let mut map = serde_yaml::Mapping::new();
    for ((s, m), g) in SECTIONS.iter().zip(&models).zip(&c.sections) {
        if let Some(v) = written(m) {
            map.insert(text(s.name), v);
        } else if matches!(g, Given::Nothing) {
            map.insert(text(s.name), Value::Null);
        }
    }
    if c.stray.0 {
        map.insert(text("swep"), Value::Null);
    }
    let contents = serde_yaml::to_string(&Value::Mapping(map)).unwrap();
    let mut arguments: Vec<String> = c.overrides.iter().map(|o| o.apply(&mut models)).collect();
    if c.stray.1 {
        arguments.push("swep/periodic:true".into());
    }
    let parsed = no_panic(|| arguments.iter().map(|a| a.parse::<Override>().map_err(|e| format!("override {a} is rejected: {e}"))).collect::<Result<Vec<_>, _>>())??;
    let start = || {
        let mut sim = Simulation::default();
        sim.add_parameter_file_contents(contents.clone());
        sim.with_parameter_overrides(parsed.clone());
        sim
    };
    let mut valid = 0;
    for (i, (s, m)) in SECTIONS.iter().zip(&models).enumerate() {
        // A section that says nothing has no keys to override.
        let nothing = matches!(c.sections[i], Given::Nothing);
        if nothing && (!s.absent || c.overrides.iter().any(|o| o.section as usize % SECTIONS.len() == i)) {
            continue;
        }
        // A key of a number, replaced later, may be rejected or not.
        let of_this: Vec<&Over> = c.overrides.iter().filter(|o| o.section as usize % SECTIONS.len() == i).collect();
        if s.scalar.is_some() && of_this.len() > 1 && of_this.iter().any(|o| matches!(o.place, Place::Unknown)) {
            continue;
        }
        let what = || format!("section {} of\n{contents}with {arguments:?}", s.name);
        let found = no_panic(|| read(s.name, &mut start()));
        match (meaning(s, m), found) {
            (Some(expected), Ok(found)) => {
                let found = plain(s, found);
                ensure!(same(&found, &expected), "{}\nis read as {found:?}, expected {expected:?}", what());
                valid += 1;
            }
            (Some(_), Err(e)) => return Err(format!("{}\nis rejected: {e}", what())),
            (None, Ok(found)) => return Err(format!("{}\nis not valid, but read as {found:?}", what())),
            (None, Err(_)) => {}
        }
    }
    // All together, and the copy of what was used.
    if valid == SECTIONS.len() {
        let mut sim = start();
        let values: Vec<Value> = SECTIONS.iter().map(|s| read(s.name, &mut sim)).collect();
        let copy = sim.get_resource::<ParameterFileContents>().unwrap().contents();
        let mut again = Simulation::default();
        again.add_parameter_file_contents(copy.clone());
        for (s, v) in SECTIONS.iter().zip(&values) {
            let w = no_panic(|| read(s.name, &mut again)).map_err(|e| format!("the copy of the parameters\n{copy}cannot be read: {e}"))?;
            ensure!(same(&plain(s, v.clone()), &plain(s, w.clone())), "section {} of the copy\n{copy}is read as {w:?} instead of {v:?}", s.name);
        }
        sim.insert_non_send_resource(subsweep::verif::Performance::default());
        let ended = no_panic(|| sim.run_without_finalize());
        ensure_eq!(ended.is_err(), c.stray.0 || c.stray.1, "sections no one knows (in the file, in an override: {:?}) end the run: {ended:?}", c.stray);
        let class = if c.stray.0 || c.stray.1 { "unknown section" } else if arguments.is_empty() { "valid, no overrides" } else { "valid, with overrides" };
        return Ok(class.into());
    }
    Ok((if valid > 0 { "some sections rejected" } else { "" }).into())
}

/// Files that are not YAML.
fn broken(c: &(u32, u32)) -> Outcome {
    let models: Vec<Model> = SECTIONS.iter().enumerate().map(|(i, s)| keys(s, c.0, c.1 ^ i as u32, &[])).collect();
    let map: serde_yaml::Mapping = SECTIONS.iter().zip(&models).map(|(s, m)| (text(s.name), written(m).unwrap())).collect();
    let good = serde_yaml::to_string(&Value::Mapping(map)).unwrap();
    let lines: Vec<&str> = good.lines().collect();
    let at = (random(c.1, 80) * (lines.len() + 1) as f64) as usize;
    let insert = ["x: [1, 2", "  bad: \"x", "\t- a: b", "sweep: {", "a: b: c", "- 3", "}"][(random(c.1, 81) * 7.0) as usize];
    let mut new = lines.clone();
    new.insert(at, insert);
    let new = new.join("\n") + "\n";
    if serde_yaml::from_str::<Value>(&new).is_ok() {
        return Ok("".into());
    }
    for name in ["output", "cosmology", "simulation", "grid"] {
        let found = no_panic(|| {
            let mut sim = Simulation::default();
            sim.add_parameter_file_contents(new.clone());
            read(name, &mut sim)
        });
        ensure!(found.is_err(), "a file that cannot be parsed:\n{new}section {name} is read as {found:?}");
    }
    Ok("cannot be parsed".into())
}

pub fn run(mut ctx: Ctx) {
    let change = || prop_oneof![any::<u32>().prop_map(Change::Drop), Just(Change::Unknown), any::<u32>().prop_map(Change::Wrong)];
    let changes = || prop_oneof![30 => Just(vec![]), 1 => prop::collection::vec(change(), 1..2)];
    let given = |i: usize| {
        let omit = if SECTIONS[i].absent || SECTIONS[i].keys.iter().all(|k| matches!(k.2, Is(_))) && SECTIONS[i].scalar.is_none() { 8 } else { 1 };
        prop_oneof![
            20 => (any::<u32>(), any::<u32>(), changes()).prop_map(|(b, s, c)| Given::Keys(b, s, c)),
            omit => Just(Given::Omitted),
            1 => Just(Given::Nothing),
        ]
    };
    let place = || prop_oneof![2 => any::<u32>().prop_map(Place::Whole), 10 => any::<u32>().prop_map(Place::Key), 3 => any::<u32>().prop_map(Place::Nested), 1 => Just(Place::Unknown)];
    let over = || {
        (prop_oneof![3 => 0..7u32, 1 => Just(2)], place(), any::<u32>(), prop::bool::weighted(0.95)).prop_map(|(section, place, seed, valid)| Over { section, place, seed, valid })
    };
    let sections = (given(0), given(1), given(2), given(3), given(4), given(5), given(6)).prop_map(|(a, b, c, d, e, f, g)| vec![a, b, c, d, e, f, g]);
    let stray = || (prop::bool::weighted(0.05), prop::bool::weighted(0.05));
    let cases = (sections, prop::collection::vec(over(), 0..5), stray()).prop_map(|(sections, overrides, stray)| FileCase { sections, overrides, stray });
    let n = ctx.cases(40_000, 1_000_000);
    ctx.stage(
        "files",
        "parameter files of seven sections with values left out, wrong or unknown, and up to four overrides of whole sections, keys or nested keys; non-trivial: at least one section is valid",
        n,
        cases,
        file_case,
    );
    let n = ctx.cases(4_000, 50_000);
    ctx.stage("broken", "parameter files with a line that is no YAML; non-trivial: cannot be parsed", n, any::<(u32, u32)>(), broken);
    ctx.finish()
}
