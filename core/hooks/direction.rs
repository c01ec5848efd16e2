#[cfg(feature = "hook_direction")]
pub mod verif {
    pub fn random_rotation_matrix(rng: &mut rand::rngs::StdRng) -> [[f64; 3]; 3] {
        super::get_random_rotation_matrix(rng)
    }
    pub fn rotate(vec: &mut glam::DVec3, matrix: &[[f64; 3]; 3]) {
        super::multiply_by_matrix(vec, matrix)
    }
    pub fn direction_sets() -> [(usize, &'static [[f64; 3]]); 5] {
        [
            (16, &super::healpix::DIRECTION_BINS_16),
            (21, &super::healpix::DIRECTION_BINS_21),
            (32, &super::healpix::DIRECTION_BINS_32),
            (64, &super::healpix::DIRECTION_BINS_64),
            (84, &super::healpix::DIRECTION_BINS_84),
        ]
    }
}
