//! C32: cosmic times and scale factors.
use engine::{ensure, Ctx, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::parameters::Cosmology;
use subsweep::time_spec::TimeSpec;
use subsweep::units::{Dimensionless, Time};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CosmosCase {
    /// Part of the dark energy, and the remainder not quite 1.
    lambda: f64,
    excess: f64,
    h: f64,
    factors: [f64; 3],
}

/// Hubble time over h, in seconds: megaparsec over 100 km/s.
const HUBBLE_TIME: f64 = 3.0856776e22 / 1e5;

impl CosmosCase {
    fn matter(&self) -> f64 {
        1.0 - self.lambda + self.excess
    }

    /// The age at some scale factor, by integration of 1 / H over the logarithm of the scale factor.
    fn age(&self, a: f64) -> f64 {
        // Substitution u = a^(3/2): dt = 2/3 du / sqrt(matter + lambda u^2).
        let end = a.powf(1.5);
        let f = |u: f64| 2.0 / 3.0 / (self.matter() + self.lambda * u * u).sqrt();
        let n = 400;
        let sum: f64 = (0..n)
            .map(|i| {
                // Gauss, three points, on intervals that grow like squares.
                let at = |i: usize| end * (i as f64 / n as f64).powi(2);
                let (x0, x1) = (at(i), at(i + 1));
                let (m, w) = ((x0 + x1) / 2.0, (x1 - x0) / 2.0);
                let d = w * 0.6f64.sqrt();
                w * (5.0 * f(m - d) + 8.0 * f(m) + 5.0 * f(m + d)) / 9.0
            })
            .sum();
        sum * HUBBLE_TIME / self.h
    }
}

fn number(a: f64) -> Dimensionless {
    Dimensionless::dimensionless(a)
}

fn cosmos_test(case: &CosmosCase) -> Outcome {
    let [a, b, c] = case.factors;
    let text = format!("a: {a:e}\nh: {:e}\nparams:\n  omega_0: {:e}\n  omega_lambda: {:e}\n", case.h, case.matter(), case.lambda);
    let cosmology: Cosmology = serde_yaml::from_str(&text).map_err(|e| format!("{text}: {e}"))?;
    let params = match &cosmology {
        Cosmology::Cosmological { params: Some(p), .. } => *p,
        _ => return Err(format!("no cosmology in {text}")),
    };
    ensure!((cosmology.scale_factor().value() - a).abs() <= 1e-14 * a && (cosmology.little_h().value() - case.h).abs() <= 1e-14, "scale factor {:?}, h {:?} of {text}", cosmology.scale_factor(), cosmology.little_h());
    ensure!((cosmology.redshift().value() - (1.0 / a - 1.0)).abs() <= 1e-12 / a, "redshift {:?} at {a}", cosmology.redshift());
    let between = |a: f64, b: f64| cosmology.time_difference_between_scalefactors(number(a), number(b)).in_seconds();
    let scale = case.age(a.max(b).max(c));
    let slack = 1e-6 * scale;
    for (x, y) in [(a, b), (b, c), (a, c)] {
        let (t, expected) = (between(x, y), case.age(y) - case.age(x));
        ensure!((t - expected).abs() <= slack, "from {x} to {y} it takes {t:e} s, expected {expected:e} s");
        ensure!((t + between(y, x)).abs() <= 1e-12 * scale, "from {x} to {y} it takes {t:e} s, back {:e} s", between(y, x));
        ensure!(t > 0.0 || y <= x || (y - x).abs() < 1e-8 * x, "from {x} to {y} it takes {t:e} s");
    }
    ensure!((between(a, b) + between(b, c) - between(a, c)).abs() <= 1e-12 * scale, "from {a} by {b} to {c}");
    ensure!(between(a, a) == 0.0, "from {a} to itself it takes {:e} s", between(a, a));
    // Found again, to a hundred years or so.
    let t = between(a, b);
    let found = params.get_scalefactor_from_scalefactor_and_time_difference(number(a), number(case.h), Time::seconds(t)).value();
    let year = 3.16e7;
    ensure!(found > 0.0 && (between(b, found)).abs() <= 101.0 * year, "{t:e} s after {a} the scale factor is {found}, expected {b}");
    if b >= a {
        let written = serde_yaml::to_value(TimeSpec::new(Time::seconds(t), &cosmology)).map_err(|e| e.to_string())?;
        let get = |key: &str| {
            let v = &written[key];
            let text = v.as_str().map(|s| s.to_string()).or(v.as_f64().map(|x| x.to_string())).unwrap_or_default();
            text.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()).ok_or(format!("{key} is missing in {written:?}"))
        };
        let (factor, redshift) = (get("scale_factor")?, get("redshift")?);
        ensure!((factor - found).abs() <= 1e-6 * found && (redshift - (1.0 / found - 1.0)).abs() <= 1e-6 / found, "time {written:?}, expected a = {found}");
    }
    Ok(if a != b && b != c { "different scale factors" } else { "" }.into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(20_000, 500_000);
    let factor = || prop_oneof![3 => 0.01..1.0f64, 2 => (-4.0..0.7f64).prop_map(|e| 10f64.powf(e)), 1 => Just(1.0)];
    ctx.stage(
        "cosmos",
        "flat cosmologies (sum of densities within half a percent of 1) with any dark energy, also none; scale factors of 1e-4-5; non-trivial: different scale factors",
        n,
        (
            prop_oneof![4 => 0.01..0.99f64, 1 => Just(0.0), 1 => (-12.0..-2.0f64).prop_map(|e| 10f64.powf(e)), 2 => Just(0.6911)],
            prop_oneof![2 => Just(0.0), 1 => -0.005..0.005f64],
            prop_oneof![2 => 0.3..1.5f64, 1 => Just(0.6774)],
            [factor(), factor(), factor()],
        )
            .prop_map(|(lambda, excess, h, factors)| CosmosCase { lambda, excess, h, factors }),
        cosmos_test,
    );
    ctx.finish()
}
