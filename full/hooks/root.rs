pub mod verif {
    pub use crate::extent::Extent;
    #[cfg(feature = "hook_parameters")]
    pub use crate::parameter_plugin::parameter_file_contents::Override;
    #[cfg(feature = "hook_parameters")]
    pub use crate::parameter_plugin::ParameterFileContents;
    #[cfg(feature = "hook_messages")]
    pub use crate::chemistry::hydrogen_only::HydrogenOnly;
    pub use crate::performance::Performance;
    #[cfg(feature = "hook_boxes")]
    pub use boxes::*;
    #[cfg(feature = "hook_boxes")]
    mod boxes {
        use crate::parameters::SimulationBox;
        use crate::prelude::Extent;
        use crate::quadtree::{LeafDataType, Node, NodeDataType, QuadTree, QuadTreeConfig};
        use crate::units::VecLength;

        #[derive(Clone, Debug)]
        pub struct Named {
            pub name: usize,
            pub position: VecLength,
        }

        impl LeafDataType for Named {
            fn pos(&self) -> &VecLength {
                &self.position
            }
        }

        #[derive(Default, Debug)]
        pub struct Counter {
            pub count: usize,
        }

        impl NodeDataType<Named> for Counter {
            fn update_with(&mut self, _: &Named) {
                self.count += 1;
            }
        }

        pub fn tree(max_depth: usize, max_num_particles_per_leaf: usize, particles: Vec<Named>, extent: &Extent) -> QuadTree<Counter, Named> {
            QuadTree::new(&QuadTreeConfig { max_depth, max_num_particles_per_leaf }, particles, extent)
        }

        pub fn children(tree: &QuadTree<Counter, Named>) -> Result<&[QuadTree<Counter, Named>], &[Named]> {
            match &tree.node {
                Node::Tree(t) => Ok(&t[..]),
                Node::Leaf(l) => Err(&l[..]),
            }
        }

        /// Translations in units of the sides, and images.
        pub fn periodic_images(box_: &SimulationBox, p: VecLength) -> Vec<([f64; 3], VecLength)> {
            let sign = |w| match format!("{w:?}").as_str() {
                "-" => -1.0,
                "+" => 1.0,
                _ => 0.0,
            };
            box_.iter_periodic_images(p).map(|(t, image)| ([sign(t.x), sign(t.y), sign(t.z)], image)).collect()
        }
    }
    #[cfg(feature = "hook_grid")]
    pub use crate::voronoi::grid_verif::GridConstructionParameters;
}
#[cfg(feature = "hook_chemistry")]
pub use crate::chemistry::hydrogen_only::verif as chemistry_verif;
#[cfg(feature = "hook_sweep")]
pub use crate::sweep::verif as sweep_verif;
