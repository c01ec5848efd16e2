pub mod verif {
    #[cfg(feature = "hook_rank")]
    pub use crate::communication::WorldRank;
    #[cfg(feature = "hook_extent")]
    pub use crate::extent::Extent;
    #[cfg(feature = "hook_keys")]
    pub use crate::peano_hilbert::PeanoKey2d;
    #[cfg(feature = "hook_keys")]
    pub use crate::peano_hilbert::PeanoKey3d;
    #[cfg(feature = "hook_quadtree")]
    pub use crate::quadtree::verif as quadtree;
}
