use crate::component::ComponentId;

#[derive(Default)]
pub struct Archetype {
    pub(crate) components: Vec<ComponentId>,
    pub(crate) entities: Vec<crate::entity::Entity>,
}

impl Archetype {
    pub fn is_empty(&self) -> bool {
        self.entities.is_empty()
    }
    pub fn len(&self) -> usize {
        self.entities.len()
    }
    pub fn entities(&self) -> &[crate::entity::Entity] {
        &self.entities
    }
    pub fn components(&self) -> impl Iterator<Item = ComponentId> + '_ {
        self.components.iter().copied()
    }
}

/// Computed on demand when a system asks for it.
#[derive(Default)]
pub struct Archetypes {
    pub(crate) archetypes: Vec<Archetype>,
}

impl Archetypes {
    pub fn iter(&self) -> impl Iterator<Item = &Archetype> {
        self.archetypes.iter()
    }
    pub fn len(&self) -> usize {
        self.archetypes.len()
    }
}
