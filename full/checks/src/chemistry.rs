//! C17: state of the gas. C18: rates of the gas.
use engine::{ensure, Ctx, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use subsweep::chemistry_verif as hook;

const PROTON_MASS: f64 = 1.67262192369e-27;
const BOLTZMANN: f64 = 1.380649e-23;
/// In square metres.
const SIGMA: f64 = 2.9580524545305314e-22;
const EV: f64 = 1.602176634e-19;
const HEAT: f64 = (18.028356312818811 - 13.65693) * EV;
const EPSILON: f64 = 1e-10;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fraction: f64,
    /// log10 in kelvins
    temperature: f64,
    /// log10 of atoms per cm^3
    density: f64,
    /// log10 of the length in kpc
    length: f64,
    /// log10 of ionizing photons per atom and megayear; below -20: none.
    photons: f64,
    /// log10 in years
    timestep: f64,
    scale_factor: f64,
    safety: f64,
    floor: bool,
}

impl Case {
    fn gas(&self) -> hook::Gas {
        let length = 10f64.powf(self.length) * 3.0857e19;
        let volume = 4.0 / 3.0 * std::f64::consts::PI * length.powi(3);
        let n = 10f64.powf(self.density) * 1e6;
        let temperature = 10f64.powf(self.temperature);
        hook::Gas {
            fraction: self.fraction,
            temperature,
            density: n * PROTON_MASS,
            volume,
            length,
            rate: if self.photons < -20.0 { 0.0 } else { n * volume / 3.15576e13 * 10f64.powf(self.photons) },
            scale_factor: self.scale_factor,
            floor: self.floor.then_some((temperature, self.fraction)),
        }
    }
    fn dt(&self) -> f64 {
        10f64.powf(self.timestep) * 3.15576e7
    }
}

fn case(extreme: bool) -> impl Strategy<Value = Case> {
    let fraction = prop_oneof![
        1 => Just(EPSILON),
        1 => Just(1.0 - EPSILON),
        if extreme { 2 } else { 0 } => prop_oneof![Just(0.0), Just(1.0), Just(1e-12), Just(1.0 - 1e-13), Just(1e-30)],
        4 => 0.0..1.0f64,
        2 => (-9.9..-0.01f64).prop_map(|e| 10f64.powf(e)),
        1 => (-9.9..-0.01f64).prop_map(|e| 1.0 - 10f64.powf(e)),
    ];
    let wide = extreme;
    (
        fraction,
        if wide { 0.5..9.0f64 } else { 2.5..6.0 },
        if wide { -9.0..4.0f64 } else { -6.0..1.0 },
        if wide { -6.0..3.0f64 } else { -3.0..2.0 },
        prop_oneof![1 => Just(-30.0), 4 => if wide { -10.0..8.0f64 } else { -4.0..2.0 }],
        if wide { -3.0..9.0f64 } else { 0.0..7.0 },
        prop_oneof![Just(1.0), 0.05..1.0f64],
        prop_oneof![Just(0.1), Just(0.5), Just(0.02)],
        any::<bool>(),
    )
        .prop_map(|(fraction, temperature, density, length, photons, timestep, scale_factor, safety, floor)| Case {
            fraction,
            temperature,
            density,
            length,
            photons,
            timestep,
            scale_factor,
            safety,
            floor,
        })
}

/// The time in which one of the processes alone would change the state by its own size.
fn shortest(g: &hook::Gas) -> f64 {
    let n = g.density / PROTON_MASS;
    let x = g.fraction.clamp(EPSILON, 1.0 - EPSILON);
    let f = fits(g.temperature, g.scale_factor);
    let absorbed = g.rate * -(-n * (1.0 - x) * SIGMA * g.length).exp_m1();
    let heat = absorbed * HEAT / g.volume + f.cooling(n * 1e-6, x).abs() * 0.1;
    let t = g.density * BOLTZMANN * (1.0 + x) / (0.67 * PROTON_MASS) * g.temperature / heat;
    let rate = absorbed / (n * g.volume) / x + f.ionization * 1e-6 * n * (1.0 - x) + f.recombination * 1e-6 * n * x;
    t.min(1.0 / rate)
}

fn bounds(c: &Case) -> Outcome {
    let g = c.gas();
    // The work is proportional to the ratio of these times where the floor holds the gas out of equilibrium.
    let dt = c.dt().min(2000.0 * shortest(&g));
    let (x, t, scale) = hook::evolve(&g, dt, c.safety);
    ensure!(x >= EPSILON && x <= 1.0 - EPSILON, "ionized fraction {x:e} after {dt:e} s");
    ensure!(t > 0.0 && t.is_finite(), "temperature {t:e} after {dt:e} s");
    ensure!(scale > 0.0, "timescale {scale:e}");
    if c.floor {
        ensure!(t >= g.temperature, "temperature falls from {:e} to {t:e} although it must not", g.temperature);
        ensure!(x >= g.fraction.clamp(EPSILON, 1.0 - EPSILON), "ionized fraction falls from {:e} to {x:e} although it must not", g.fraction);
    }
    // Photons do ionize, also gas that was entirely neutral or ionized at first.
    if g.rate > 0.0 && !(g.fraction > EPSILON && g.fraction < 1.0 - EPSILON) {
        let inside = hook::Gas { fraction: g.fraction.clamp(EPSILON, 1.0 - EPSILON), floor: g.floor.map(|(t, x)| (t, x.clamp(EPSILON, 1.0 - EPSILON))), ..g.clone() };
        let (y, u, _) = hook::evolve(&inside, dt, c.safety);
        ensure!((x - y).abs() <= 1e-9 * (x + y), "from the fraction {:e}: {x:e}; from {:e}: {y:e}", g.fraction, inside.fraction);
        ensure!((t - u).abs() <= 1e-9 * t, "from the fraction {:e}: {t:e} K; from {:e}: {u:e} K", g.fraction, inside.fraction);
    }
    Ok(if x != g.fraction || t != g.temperature { if c.floor { "changes, with floor" } else { "changes" } } else { "" }.into())
}

/// The published fits (Rosdahl et al. 2013, appendix E), in cgs units.
struct Fits {
    recombination: f64,
    recombination_cooling: f64,
    ionization: f64,
    ionization_cooling: f64,
    excitation_cooling: f64,
    bremsstrahlung: f64,
    compton: f64,
}

fn fits(t: f64, scale_factor: f64) -> Fits {
    let l = 315614.0 / t;
    let slow = 1.0 + (t / 1e5).sqrt();
    let background = 2.727 / scale_factor;
    Fits {
        recombination: 2.753e-14 * l.powf(1.5) * (1.0 + (l / 2.74).powf(0.407)).powf(-2.242),
        recombination_cooling: 3.435e-30 * t * l.powf(1.97) * (1.0 + (l / 2.25).powf(0.376)).powf(-3.72),
        ionization: 5.85e-11 * t.sqrt() / slow * (-157809.1 / t).exp(),
        ionization_cooling: 1.27e-21 * t.sqrt() / slow * (-157809.1 / t).exp(),
        excitation_cooling: 7.5e-19 / slow * (-118348.0 / t).exp(),
        bremsstrahlung: 1.42e-27 * t.sqrt(),
        compton: 1.017e-37 * background.powi(4) * (t - background),
    }
}

impl Fits {
    /// erg/cm^3/s for this number of atoms per cm^3.
    fn cooling(&self, n: f64, x: f64) -> f64 {
        let (e, neutral) = (n * x, n * (1.0 - x));
        (self.excitation_cooling + self.ionization_cooling) * e * neutral + (self.recombination_cooling + self.bremsstrahlung) * e * e + self.compton * e
    }
}

fn same(a: f64, b: f64, tolerance: f64, what: &str) -> Result<(), String> {
    if (a - b).abs() > tolerance * b.abs() + 1e-300 {
        return Err(format!("{what}: {a:e}, expected {b:e}"));
    }
    Ok(())
}

fn rates(c: &Case) -> Outcome {
    let g = c.gas();
    let dt = c.dt();
    let r = hook::rates(&g, dt);
    let f = fits(g.temperature, g.scale_factor);
    let n = g.density / PROTON_MASS * 1e-6;
    let x = g.fraction;
    same(r.electrons, n * x, 1e-9, "electron density")?;
    same(r.neutral, n * (1.0 - x), 1e-9, "density of neutral hydrogen")?;
    same(r.recombination.0, f.recombination, 1e-9, "recombination coefficient")?;
    same(r.recombination_cooling.0, f.recombination_cooling, 1e-9, "recombination cooling")?;
    same(r.ionization.0, f.ionization, 1e-9, "collisional ionization coefficient")?;
    same(r.ionization_cooling.0, f.ionization_cooling, 1e-9, "collisional ionization cooling")?;
    same(r.excitation_cooling.0, f.excitation_cooling, 1e-9, "collisional excitation cooling")?;
    same(r.bremsstrahlung.0, f.bremsstrahlung, 1e-9, "bremsstrahlung")?;
    same(r.compton.0, f.compton, 1e-7, "compton cooling")?;
    let cooling = f.cooling(n, x);
    let size: f64 = (f.excitation_cooling + f.ionization_cooling) * n * n + (f.recombination_cooling + f.bremsstrahlung) * n * n * x * x + f.compton.abs() * n * x;
    if (r.cooling.0 - cooling).abs() > 1e-9 * cooling.abs() + 1e-12 * size {
        return Err(format!("cooling rate {:e}, expected {cooling:e}", r.cooling.0));
    }
    // Derivatives, by differences of fourth order.
    let h = 1e-4;
    let derivative = |f: &dyn Fn(f64) -> f64| {
        let t = g.temperature;
        (8.0 * (f(t * (1.0 + h)) - f(t * (1.0 - h))) - (f(t * (1.0 + 2.0 * h)) - f(t * (1.0 - 2.0 * h)))) / (12.0 * h * t)
    };
    let a = g.scale_factor;
    let slope = |got: (f64, f64), of: &dyn Fn(&Fits) -> f64, what: &str| {
        let expected = derivative(&|t| of(&fits(t, a)));
        // Below a few thousand degrees the exponentials underflow or are too steep for this.
        let scale = got.0.abs() / g.temperature;
        if (got.1 - expected).abs() > 1e-5 * (expected.abs() + scale) && expected.abs() > 1e-250 && g.temperature > 3000.0 {
            return Err(format!("derivative of {what}: {:e}, expected {expected:e}", got.1));
        }
        Ok(())
    };
    slope(r.recombination, &|f| f.recombination, "recombination coefficient")?;
    slope(r.recombination_cooling, &|f| f.recombination_cooling, "recombination cooling")?;
    slope(r.ionization, &|f| f.ionization, "collisional ionization coefficient")?;
    slope(r.ionization_cooling, &|f| f.ionization_cooling, "collisional ionization cooling")?;
    slope(r.excitation_cooling, &|f| f.excitation_cooling, "collisional excitation cooling")?;
    slope(r.bremsstrahlung, &|f| f.bremsstrahlung, "bremsstrahlung")?;
    slope(r.compton, &|f| f.compton, "compton cooling")?;
    slope((size, r.cooling.1), &|f| f.cooling(n, x), "cooling rate")?;
    // Photons: what is absorbed ionizes and heats, the rest leaves.
    let depth = n * 1e6 * (1.0 - x) * SIGMA * g.length;
    let absorbed = g.rate * -(-depth).exp_m1();
    // The code computes 1 - exp(-depth).
    let tolerance = 1e-9 + 1e-15 / depth.max(1e-300);
    if tolerance < 1e-3 {
        same(r.newly_ionized, absorbed * dt, tolerance, "number of ionizations")?;
        same(r.heating, absorbed * HEAT / g.volume * 10.0, tolerance, "photoheating")?;
        same(r.photoionization, absorbed / (n * 1e6 * (1.0 - x) * g.volume), tolerance, "photoionization rate")?;
    }
    let left = hook::outgoing(&g, 0.0);
    same(left, g.rate * (-depth).exp(), 1e-9, "photons that leave")?;
    if (left + r.newly_ionized / dt - g.rate).abs() > 1e-9 * g.rate {
        return Err(format!("{left:e} photons leave, {:e} ionize, of {:e}", r.newly_ionized / dt, g.rate));
    }
    if g.rate > 0.0 {
        ensure!(hook::outgoing(&g, g.rate * 1.001) == 0.0, "photons leave although they are fewer than the threshold");
        ensure!(hook::outgoing(&g, g.rate * 0.999) == left, "the threshold changes rates above it");
    }
    Ok((c.photons > -20.0 && x > EPSILON && x < 1.0 - EPSILON).into())
}

/// d(temperature)/dt, d(fraction)/dt.
fn slopes(g: &hook::Gas, t: f64, x: f64) -> (f64, f64) {
    let n = g.density / PROTON_MASS;
    let f = fits(t, g.scale_factor);
    let neutral = n * (1.0 - x);
    let absorbed = g.rate * -(-neutral * SIGMA * g.length).exp_m1();
    // W/m^3
    let heat = absorbed * HEAT / g.volume - f.cooling(n * 1e-6, x) * 0.1;
    let dt = (5.0 / 3.0 - 1.0) * PROTON_MASS / (g.density * BOLTZMANN) / (1.0 + x) * heat;
    let dx = absorbed / (n * g.volume) + f.ionization * 1e-6 * n * x * (1.0 - x) - f.recombination * 1e-6 * n * x * x;
    (dt, dx)
}

/// Integrates the equations: steps in which nothing changes by more than a part in a thousand, implicit where they are stiff.
fn integrate(g: &hook::Gas, duration: f64, max_steps: usize) -> Option<(f64, f64)> {
    let (mut t, mut x) = (g.temperature, g.fraction);
    let mut time = 0.0;
    let tolerance = 1e-4;
    let mut step = duration * 1e-3;
    // Rosenbrock method of second order (ROS2) with numerical Jacobian, in log t and x.
    let f = |u: [f64; 2]| {
        let t = u[0].exp();
        let (a, b) = slopes(g, t, u[1]);
        [a / t, b]
    };
    let gamma = 1.0 + 1.0 / 2f64.sqrt();
    for _ in 0..max_steps {
        if time >= duration * (1.0 - 1e-12) {
            return Some((t, x));
        }
        step = step.min(duration - time);
        let u = [t.ln(), x];
        let f0 = f(u);
        let mut jac = [[0.0; 2]; 2];
        for k in 0..2 {
            let h = if k == 0 { 1e-6 } else { 1e-6 * x.min(1.0 - x) };
            let (mut a, mut b) = (u, u);
            a[k] += h;
            b[k] -= h;
            let (fa, fb) = (f(a), f(b));
            for i in 0..2 {
                jac[i][k] = (fa[i] - fb[i]) / (2.0 * h);
            }
        }
        let solve = |r: [f64; 2], step: f64| {
            let m = [[1.0 - gamma * step * jac[0][0], -gamma * step * jac[0][1]], [-gamma * step * jac[1][0], 1.0 - gamma * step * jac[1][1]]];
            let d = m[0][0] * m[1][1] - m[0][1] * m[1][0];
            [(r[0] * m[1][1] - r[1] * m[0][1]) / d, (r[1] * m[0][0] - r[0] * m[1][0]) / d]
        };
        let k1 = solve(f0, step);
        let u1 = [u[0] + step * k1[0], u[1] + step * k1[1]];
        let ok = u1[1] > 0.0 && u1[1] < 1.0;
        let f1 = if ok { f(u1) } else { [0.0; 2] };
        let k2 = solve([f1[0] - 2.0 * k1[0], f1[1] - 2.0 * k1[1]], step);
        let new = [u[0] + step * (1.5 * k1[0] + 0.5 * k2[0]), u[1] + step * (1.5 * k1[1] + 0.5 * k2[1])];
        let error_of = |i: usize, s: f64| (0.5 * step * (k1[i] + k2[i])).abs() / s;
        let s = x.min(1.0 - x).max(1e-9);
        let error = error_of(0, 1.0).max(error_of(1, s));
        if ok && new[1] > 0.0 && new[1] < 1.0 && error < tolerance {
            time += step;
            t = new[0].exp();
            x = new[1];
            step *= (0.8 * (tolerance / error.max(1e-12)).sqrt()).clamp(0.5, 2.0);
        } else {
            step *= 0.4;
            if step < duration * 1e-12 {
                return None;
            }
        }
        x = x.clamp(EPSILON, 1.0 - EPSILON);
    }
    None
}

fn accuracy(c: &Case) -> Outcome {
    let mut g = c.gas();
    g.floor = None;
    let dt = c.dt();
    // The first step of the code, in the limit of a short step.
    let (st, sx) = slopes(&g, g.temperature, g.fraction);
    let short = 1e-7 * (g.temperature / st.abs()).min(g.fraction.min(1.0 - g.fraction) / sx.abs());
    if short.is_finite() && short > 0.0 {
        let (a, b) = hook::changes(&g, short);
        let scale = (1.0 + (g.fraction * (g.density / PROTON_MASS) * 1e-13 * short)).min(2.0);
        let _ = scale;
        // Cancellation between heating and cooling, ionization and recombination.
        let n = g.density / PROTON_MASS;
        let f = fits(g.temperature, g.scale_factor);
        let big_x = f.ionization * 1e-6 * n * g.fraction + f.recombination * 1e-6 * n * g.fraction * g.fraction + g.rate / (n * g.volume);
        if sx.abs() > 1e-6 * big_x {
            ensure!((b - sx * short).abs() < 1e-4 * (sx * short).abs(), "the ionized fraction changes by {b:e} in {short:e} s, expected {:e}", sx * short);
        }
        let big_t = 1e-6 * 0.67 * PROTON_MASS / (g.density * BOLTZMANN) * (g.rate * HEAT / g.volume + f.cooling(n * 1e-6, g.fraction).abs() * 0.1);
        if st.abs() > big_t {
            ensure!((a - st * short).abs() < 1e-4 * (st * short).abs(), "the temperature changes by {a:e} in {short:e} s, expected {:e}", st * short);
        }
    }
    let Some((t, x)) = integrate(&g, dt, 60_000) else { return Ok("".into()) };
    // The relative change per step is limited (of the ionized, not of the neutral part, on which heating and cooling
    // depend), so a few of these states need a stricter limit to be as close to the solution.
    let tolerance = 0.1;
    let (mut y, mut u) = (0.0, 0.0);
    for safety in [1e-3, 1e-4, 1e-5] {
        (y, u, _) = hook::evolve(&g, dt, safety);
        if (u.ln() - t.ln()).abs() < tolerance && ((y.ln() - x.ln()).abs() < tolerance || (x - y).abs() < 1e-8) {
            break;
        }
    }
    ensure!(
        (u.ln() - t.ln()).abs() < tolerance,
        "the temperature goes from {:e} to {u:e} in {dt:e} s, expected {t:e} (fraction {y:e}, expected {x:e})", g.temperature
    );
    ensure!(
        (y.ln() - x.ln()).abs() < tolerance || (x - y).abs() < 1e-8,
        "the ionized fraction goes from {:e} to {y:e} in {dt:e} s, expected {x:e} (temperature {u:e}, expected {t:e})", g.fraction
    );
    let changed = (t / g.temperature).ln().abs() > 0.05 || (x / g.fraction).ln().abs() > 0.05;
    Ok(if changed { "evolves" } else { "" }.into())
}

pub fn run(mut ctx: Ctx) {
    let n = ctx.cases(100_000, 3_000_000);
    ctx.stage(
        "bounds",
        "gas of 1e-9-1e4 atoms per cm^3 and 3-1e9 K, ionized fraction 0-1 (ends included), any rate, timestep and safety factor, with or without floors; non-trivial: its state changes",
        n,
        case(true),
        bounds,
    );
    let n = ctx.cases(3000, 60_000);
    ctx.stage(
        "accuracy",
        "gas of 1e-6-10 atoms per cm^3 and 300-1e6 K over 1-1e7 years, compared with an independent integration; non-trivial: temperature or ionized fraction change by more than 5 %",
        n,
        case(false),
        accuracy,
    );
    ctx.finish()
}

pub fn run_rates(mut ctx: Ctx) {
    let n = ctx.cases(100_000, 2_000_000);
    ctx.stage(
        "rates",
        "the same gas; non-trivial: partly ionized gas with photons",
        n,
        case(true),
        |c: &Case| {
            let mut c = c.clone();
            c.fraction = c.fraction.clamp(EPSILON, 1.0 - EPSILON);
            rates(&c)
        },
    );
    ctx.finish()
}
