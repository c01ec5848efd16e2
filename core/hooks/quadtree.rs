#[cfg(feature = "hook_quadtree")]
pub mod verif {
    use super::node_index::NodeIndex;

    /// `None` is the node itself, `Some(i)` its i-th child.
    pub fn encode(child: Option<u8>) -> u8 {
        match child {
            None => NodeIndex::ThisNode.into(),
            Some(i) => NodeIndex::Child(i).into(),
        }
    }

    pub fn decode(code: u8) -> Option<u8> {
        match NodeIndex::from(code) {
            NodeIndex::ThisNode => None,
            NodeIndex::Child(i) => Some(i),
        }
    }

    pub fn show(child: Option<u8>) -> String {
        match child {
            None => NodeIndex::ThisNode.to_string(),
            Some(i) => NodeIndex::Child(i).to_string(),
        }
    }

    pub const NUM_CHILDREN: usize = super::TWO_TO_NUM_DIMENSIONS;
}
