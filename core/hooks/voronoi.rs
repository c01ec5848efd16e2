#[cfg(feature = "hook_voronoi")]
pub mod verif {
    pub use super::indexed_arena::IndexedArena;
    pub use super::indexed_arena::IndexedVec;
}
