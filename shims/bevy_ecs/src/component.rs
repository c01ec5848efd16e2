pub use bevy_ecs_macros::Component;

pub trait Component: Send + Sync + 'static {}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct ComponentId(pub(crate) usize);

pub struct ComponentInfo {
    pub(crate) name: &'static str,
}

impl ComponentInfo {
    pub fn name(&self) -> &str {
        self.name
    }
}

#[derive(Default)]
pub struct Components {
    pub(crate) infos: Vec<ComponentInfo>,
}

impl Components {
    pub fn get_info(&self, id: ComponentId) -> Option<&ComponentInfo> {
        self.infos.get(id.0)
    }
    pub fn len(&self) -> usize {
        self.infos.len()
    }
}
