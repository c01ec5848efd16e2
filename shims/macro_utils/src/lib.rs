//! Stand-in: only used by one `#[ignore]`d repository test.
pub struct Example { pub name: Option<String>, pub required_features: Vec<String> }
#[derive(Default)]
pub struct SubsweepManifest;
impl SubsweepManifest { pub fn examples(&self) -> Vec<Example> { vec![] } }
