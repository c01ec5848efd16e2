//! C25: sources from the stars of the input.
use super::bpass::{AGES, METALLICITIES, PHOTONS};
use super::*;

const SOLAR: f64 = 1.988477e30;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Star {
    cell: u32,
    /// Formation, as a part of the present scale factor; 0 and below: no star but wind.
    formed: f64,
    metallicity: f64,
    /// log10 of the rate, as for explicit sources.
    strength: f64,
    file: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StarCase {
    run: RunCase,
    stars: Vec<Star>,
    escape: f64,
    /// Files with nothing to say on stars, if there are none in them.
    omit: u32,
    /// Unit of the masses of stars: log10, powers of a and h.
    unit: (f64, i32, i32),
}

fn star() -> impl Strategy<Value = Star> {
    (
        any::<u32>(),
        prop_oneof![
            1 => Just(0.0),
            1 => -1.0..0.0f64,
            // Young, old, and anything between.
            2 => (-6.0..0.0f64).prop_map(|x| 1.0 - 10f64.powf(x)),
            2 => 0.0..1.0f64,
            1 => (-4.0..0.0f64).prop_map(|x| 10f64.powf(x)),
            1 => Just(1.0),
        ],
        prop_oneof![1 => Just(0.0), 1 => prop::sample::select(METALLICITIES.to_vec()), 6 => (-6.0..-0.5f64).prop_map(|x| 10f64.powf(x)), 1 => 0.0..1.0f64],
        -2.0..1.0f64,
        any::<u32>(),
    )
        .prop_map(|(cell, formed, metallicity, strength, file)| Star { cell, formed, metallicity, strength, file })
}

fn star_case() -> impl Strategy<Value = StarCase> {
    (
        run_case(30),
        (0.05..0.95f64, 0.5..0.8f64, 0.1..0.6f64),
        prop::collection::vec(star(), 0..20),
        prop_oneof![1 => Just(1.0), 3 => 0.01..1.0f64],
        any::<u32>(),
        (-6.0..6.0f64, -3..4i32, -3..4i32),
    )
        .prop_map(|(mut run, (a, h, omega_0), stars, escape, omit, unit)| {
            if run.universe.is_none() {
                run.comoving_box = run.seed & 4 > 0;
            }
            run.universe = Some(Universe { a, h, omega_0: Some(omega_0) });
            run.sources = vec![];
            // Every run tells the sources.
            run.fields = None;
            run.final_time %= 9;
            StarCase { run, stars, escape, omit, unit }
        })
}

/// Photons per second and solar mass: linear in age and metallicity between the entries of the table, of which none is left out.
fn photons(age: f64, metallicity: f64) -> f64 {
    let place = |bins: &[f64], value: f64| {
        let value = value.clamp(bins[0] * 1.00001, bins[bins.len() - 1] / 1.00001);
        let i = (1..bins.len() - 1).find(|i| bins[*i] > value).unwrap_or(bins.len() - 1);
        (i, (value - bins[i - 1]) / (bins[i] - bins[i - 1]))
    };
    let (i, x) = place(&AGES, age / YEAR);
    let (j, y) = place(&METALLICITIES, metallicity);
    (1.0 - x) * (1.0 - y) * PHOTONS[i - 1][j - 1] + x * (1.0 - y) * PHOTONS[i][j - 1] + (1.0 - x) * y * PHOTONS[i - 1][j] + x * y * PHOTONS[i][j]
}

fn stars_case(case: &StarCase) -> Outcome {
    let run = &case.run;
    let u = run.universe.clone().unwrap();
    let mut setup = run.setup();
    let n = setup.cells.len();
    let (mut light, mut wind) = (0, 0);
    // Cell, formation, metallicity, mass, file.
    let mut stars: Vec<(usize, f64, f64, f64, usize)> = vec![];
    for s in &case.stars {
        let i = (random(s.cell, 50) * n as f64) as usize;
        let c = &mut setup.cells[i];
        let formed = if s.formed == 1.0 { u.a } else { s.formed * u.a };
        let per_mass = photons(u.age(u.a) - u.age(formed.max(1e-10)), s.metallicity) * case.escape;
        let rate = c.density / PROTON_MASS * c.volume / MAX_TIMESTEP * 10f64.powf(s.strength);
        // Stars of all masses; where there is next to no light, no more than a million of a young one.
        let mass = SOLAR * (rate / per_mass).min(rate / case.escape / 1e40);
        if formed > 0.0 {
            c.source += mass / SOLAR * per_mass;
            setup.total += mass / SOLAR * per_mass;
            light += 1;
        } else {
            wind += 1;
        }
        stars.push((i, formed, s.metallicity, mass, s.file as usize % run.files.len()));
    }
    setup.parameters.threshold = run.threshold * setup.total;
    setup.sources = Some(format!("!from_ics\n    escape_fraction: {:?}", case.escape));
    let p = perform_setup(run, setup, &[], |s, _, input| {
        for (k, path) in input.iter().enumerate() {
            let rows: Vec<_> = stars.iter().filter(|s| s.4 == k).collect();
            // A file without stars has the datasets or not.
            if rows.is_empty() && (case.omit >> k & 1 == 1) {
                continue;
            }
            let file = File::open_rw(path).unwrap();
            let f = run.factor(0, [1, 0, 0]);
            let set = file.new_dataset::<f64>().shape((rows.len(), 3)).create("PartType4/Coordinates").unwrap();
            if !rows.is_empty() {
                set.write_rows(&rows.iter().map(|r| s.cells[r.0].center.iter().map(|x| x / f).collect()).collect::<Vec<_>>()).unwrap();
            }
            run.write_attributes(&set, 0, [1, 0, 0]);
            let (unit, a, h) = case.unit;
            let write = |name: &str, value: &dyn Fn(&(usize, f64, f64, f64, usize)) -> f64| {
                let set = file.new_dataset::<f64>().shape(rows.len()).create(name).unwrap();
                if !rows.is_empty() {
                    set.write_slice(&rows.iter().map(|r| value(r)).collect::<Vec<f64>>(), 0..rows.len()).unwrap();
                }
                set
            };
            let zero = run.seed & 8 > 0;
            RunCase::write_plain_attributes(&write("PartType4/GFM_Metallicity", &|r| r.2), zero);
            RunCase::write_plain_attributes(&write("PartType4/GFM_StellarFormationTime", &|r| r.1), !zero);
            let factor = 10f64.powf(unit) * 0.001 * u.a.powi(a) * u.h.powi(h);
            let set = write("PartType4/Masses", &|r| r.3 / factor);
            set.new_attr::<f64>().shape(()).create("to_cgs").unwrap().write_scalar(&10f64.powf(unit)).unwrap();
            for (name, value) in [("length_scaling", 0), ("velocity_scaling", 0), ("mass_scaling", 1), ("a_scaling", a), ("h_scaling", h)] {
                set.new_attr::<i32>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
            }
        }
    })?;
    let expected = check_schedule(run, &p)?;
    check_states(&p, &expected)?;
    if light == 0 {
        return Ok("".into());
    }
    Ok(format!("{} ranks, {}", run.ranks, if wind > 0 { "stars and wind" } else { "stars" }).into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(480, 6000);
    ctx.stage(
        "stars",
        "runs of the program on 1-4 ranks as in C22, with 0-20 stars and wind particles in the input, of any age and metallicity and in any of the files, for sources; non-trivial: at least one star",
        n,
        star_case(),
        stars_case,
    );
    ctx.finish()
}
