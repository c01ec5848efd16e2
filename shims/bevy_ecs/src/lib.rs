//! Stand-in for the part of bevy_ecs (0.9 generation, tehforsch's fork) that subsweep uses.
//!
//! Semantics kept from bevy: systems of a stage run one after another in an order that respects
//! `before`/`after` (ties: insertion order), run criteria are evaluated at the start of the stage,
//! commands are applied at the end of the stage, events live for two updates, and send and
//! non-send resources share one storage.
#![allow(clippy::all)]
#![allow(dangerous_implicit_autorefs)]

pub mod archetype;
pub mod bundle;
pub mod component;
pub mod entity;
pub mod event;
pub mod query;
pub mod schedule;
pub mod system;
pub mod world;

pub mod prelude {

    pub use crate::bundle::Bundle;
    pub use crate::component::Component;
    pub use crate::entity::Entity;
    pub use crate::event::EventReader;
    pub use crate::event::EventWriter;
    pub use crate::event::Events;
    pub use crate::query::Query;
    pub use crate::query::With;
    pub use crate::query::Without;
    pub use crate::schedule::AsSystemLabel;
    pub use crate::schedule::IntoSystemDescriptor;
    pub use crate::schedule::Schedule;
    pub use crate::schedule::Stage;
    pub use crate::schedule::StageLabel;
    pub use crate::schedule::SystemLabel;
    pub use crate::schedule::SystemSet;
    pub use crate::schedule::SystemStage;
    pub use crate::system::Commands;
    pub use crate::system::Local;
    pub use crate::system::NonSend;
    pub use crate::system::NonSendMut;
    pub use crate::system::Res;
    pub use crate::system::ResMut;
    pub use crate::system::Resource;
    pub use crate::world::FromWorld;
    pub use crate::world::Mut;
    pub use crate::world::World;
}
