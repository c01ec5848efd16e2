pub mod verif {
    #[cfg(feature = "hook_sweep")]
    pub use super::count_by_dir::CountByDir;
    #[cfg(feature = "hook_direction")]
    pub use super::direction::verif as direction;
    #[cfg(feature = "hook_sweep")]
    pub use super::direction::DirectionIndex;
}
