#[cfg(feature = "hook_chemistry")]
pub mod verif {
    //! The chemistry of one cell, as plain numbers in SI units.
    use super::HydrogenOnly;
    use super::Solver;
    use crate::units::Dimensionless;
    use crate::units::Length;
    use crate::units::Mass;
    use crate::units::PhotonRate;
    use crate::units::Temperature;
    use crate::units::Time;
    use crate::units::Volume;

    #[derive(Clone, Debug)]
    pub struct Gas {
        pub fraction: f64,
        pub temperature: f64,
        pub density: f64,
        pub volume: f64,
        pub length: f64,
        pub rate: f64,
        pub scale_factor: f64,
        pub floor: Option<(f64, f64)>,
    }

    fn solver(g: &Gas) -> Solver {
        Solver {
            ionized_hydrogen_fraction: Dimensionless::dimensionless(g.fraction),
            temperature: Temperature::kelvins(g.temperature),
            density: Mass::kilograms(g.density) / Volume::cubic_meters(1.0),
            volume: Volume::cubic_meters(g.volume),
            length: Length::meters(g.length),
            rate: PhotonRate::photons_per_second(g.rate),
            scale_factor: Dimensionless::dimensionless(g.scale_factor),
            floor: g
                .floor
                .map(|(t, x)| (Temperature::kelvins(t), Dimensionless::dimensionless(x))),
        }
    }

    /// The state after the timestep, and the timescale of change.
    pub fn evolve(g: &Gas, timestep: f64, safety: f64) -> (f64, f64, f64) {
        let mut s = solver(g);
        let scale = s.perform_timestep(Time::seconds(timestep), Dimensionless::dimensionless(safety));
        (s.ionized_hydrogen_fraction.value(), s.temperature.in_kelvins(), scale.time.in_seconds())
    }

    #[derive(Clone, Debug)]
    pub struct Rates {
        /// Rate coefficients in cm^3/s and erg cm^3/s, and derivatives by temperature.
        pub recombination: (f64, f64),
        pub recombination_cooling: (f64, f64),
        pub ionization: (f64, f64),
        pub ionization_cooling: (f64, f64),
        pub excitation_cooling: (f64, f64),
        pub bremsstrahlung: (f64, f64),
        /// erg/s per electron
        pub compton: (f64, f64),
        /// erg/cm^3/s
        pub cooling: (f64, f64),
        pub heating: f64,
        /// per second and neutral atom
        pub photoionization: f64,
        /// per m^3
        pub electrons: f64,
        pub neutral: f64,
        pub newly_ionized: f64,
    }

    pub fn rates(g: &Gas, timestep: f64) -> Rates {
        let s = solver(g);
        let k = Temperature::kelvins(1.0);
        let t = Time::seconds(timestep);
        Rates {
            recombination: (
                s.case_b_recombination_rate().in_centimeters_cubed_per_s(),
                (s.case_b_recombination_rate_derivative() * k).in_centimeters_cubed_per_s(),
            ),
            recombination_cooling: (
                s.case_b_recombination_cooling_rate().in_ergs_centimeters_cubed_per_s(),
                (s.case_b_recombination_cooling_rate_derivative() * k).in_ergs_centimeters_cubed_per_s(),
            ),
            ionization: (
                s.collisional_ionization_rate().in_centimeters_cubed_per_s(),
                (s.collisional_ionization_rate_derivative() * k).in_centimeters_cubed_per_s(),
            ),
            ionization_cooling: (
                s.collisional_ionization_cooling_rate().in_ergs_centimeters_cubed_per_s(),
                (s.collisional_ionization_cooling_rate_derivative() * k).in_ergs_centimeters_cubed_per_s(),
            ),
            excitation_cooling: (
                s.collisional_excitation_cooling_rate().in_ergs_centimeters_cubed_per_s(),
                (s.collisional_excitation_cooling_rate_derivative() * k).in_ergs_centimeters_cubed_per_s(),
            ),
            bremsstrahlung: (
                s.bremsstrahlung_cooling_rate().in_ergs_centimeters_cubed_per_s(),
                (s.bremsstrahlung_cooling_rate_derivative() * k).in_ergs_centimeters_cubed_per_s(),
            ),
            compton: (
                s.compton_cooling_rate().in_ergs_per_s(),
                (s.compton_cooling_rate_derivative() * k).in_ergs_per_s(),
            ),
            cooling: (
                s.cooling_rate().in_ergs_per_centimeters_cubed_per_s(),
                (s.cooling_rate_derivative() * k).in_ergs_per_centimeters_cubed_per_s(),
            ),
            heating: s.photoheating_rate(t).in_ergs_per_centimeters_cubed_per_s(),
            photoionization: s.photoionization_rate(t).in_per_second(),
            electrons: s.electron_number_density().in_per_centimeters_cubed(),
            neutral: s.neutral_hydrogen_number_density().in_per_centimeters_cubed(),
            newly_ionized: s.num_newly_ionized_hydrogen_atoms(t).value(),
        }
    }

    /// Changes of temperature and ionized fraction in one semi-implicit step.
    pub fn changes(g: &Gas, timestep: f64) -> (f64, f64) {
        let mut s = solver(g);
        (
            s.temperature_change(Time::seconds(timestep)).in_kelvins(),
            s.ionized_fraction_change(Time::seconds(timestep)).value(),
        )
    }

    /// What leaves a cell like this, by the rule of the sweep.
    pub fn outgoing(g: &Gas, threshold: f64) -> f64 {
        use super::HydrogenOnlySpecies;
        use crate::chemistry::Chemistry;
        use crate::sweep::grid::Cell;
        use crate::sweep::site::Site;
        let s = solver(g);
        let chemistry = HydrogenOnly {
            rate_threshold: PhotonRate::photons_per_second(threshold),
            scale_factor: s.scale_factor,
            timestep_safety_factor: Dimensionless::dimensionless(0.1),
            prevent_cooling: false,
        };
        let spec = crate::sweep::DirectionsSpecification::Explicit(vec![]);
        let site = Site::new(
            &(&spec).into(),
            HydrogenOnlySpecies::new(s.ionized_hydrogen_fraction, s.temperature),
            s.density,
            PhotonRate::zero(),
        );
        let cell = Cell {
            neighbours: vec![],
            size: s.length,
            volume: s.volume,
        };
        chemistry.get_outgoing_rate(&cell, &site, s.rate).in_photons_per_second()
    }
}
