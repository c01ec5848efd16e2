#[cfg(feature = "hook_io")]
pub mod verif {
    pub use super::file_distribution::get_rank_input_assignment_for_rank;
    pub use super::file_distribution::get_rank_output_assignment_for_rank;
    pub use super::file_distribution::RankAssignment;
    pub use super::file_distribution::Region;
}
