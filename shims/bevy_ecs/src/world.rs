use std::any::Any;
use std::any::TypeId;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::ops::Deref;
use std::ops::DerefMut;

use crate::archetype::Archetype;
use crate::archetype::Archetypes;
use crate::bundle::Bundle;
use crate::component::Component;
use crate::component::ComponentId;
use crate::component::ComponentInfo;
use crate::component::Components;
use crate::entity::Entity;
use crate::query::Query;
use crate::query::WorldQuery;
use crate::system::Resource;

pub struct Mut<'a, T: ?Sized>(pub(crate) &'a mut T);

impl<'a, T: ?Sized> Mut<'a, T> {
    pub fn into_inner(self) -> &'a mut T {
        self.0
    }
}
impl<'a, T: ?Sized> Deref for Mut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'a, T: ?Sized> DerefMut for Mut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<'a, T: ?Sized> AsRef<T> for Mut<'a, T> {
    fn as_ref(&self) -> &T {
        self.0
    }
}
impl<'a, T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mut<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub trait FromWorld {
    fn from_world(world: &mut World) -> Self;
}
impl<T: Default> FromWorld for T {
    fn from_world(_: &mut World) -> Self {
        T::default()
    }
}

pub(crate) trait AnyColumn: Any {
    fn remove(&mut self, index: usize);
    fn has(&self, index: usize) -> bool;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn id(&self) -> ComponentId;
}

pub struct Column<T> {
    pub(crate) values: Vec<Option<T>>,
    id: ComponentId,
}

impl<T: 'static> AnyColumn for Column<T> {
    fn remove(&mut self, index: usize) {
        if let Some(v) = self.values.get_mut(index) {
            *v = None;
        }
    }
    fn has(&self, index: usize) -> bool {
        self.values.get(index).map_or(false, |v| v.is_some())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn id(&self) -> ComponentId {
        self.id
    }
}

#[derive(Default)]
pub struct World {
    /// (generation, alive)
    pub(crate) entities: Vec<(u32, bool)>,
    free: Vec<u32>,
    columns: HashMap<TypeId, Box<dyn AnyColumn>>,
    pub(crate) components: Components,
    pub(crate) archetypes: Archetypes,
    pub(crate) resources: HashMap<TypeId, Box<dyn Any>>,
}

pub struct EntityMut<'w> {
    pub(crate) world: &'w mut World,
    pub(crate) entity: Entity,
}

impl<'w> EntityMut<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert(&mut self, b: impl Bundle) -> &mut Self {
        b.insert_into(self.world, self.entity);
        self
    }
    pub fn remove<C: Component>(&mut self) -> &mut Self {
        self.world.remove_component::<C>(self.entity);
        self
    }
    pub fn despawn(self) {
        self.world.despawn(self.entity);
    }
    pub fn get<C: Component>(&self) -> Option<&C> {
        self.world.get::<C>(self.entity)
    }
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    pub(crate) fn alloc(&mut self) -> Entity {
        if let Some(index) = self.free.pop() {
            let slot = &mut self.entities[index as usize];
            slot.1 = true;
            Entity {
                generation: slot.0,
                index,
            }
        } else {
            self.entities.push((0, true));
            Entity {
                generation: 0,
                index: self.entities.len() as u32 - 1,
            }
        }
    }

    pub fn contains_entity(&self, e: Entity) -> bool {
        self.entities
            .get(e.index as usize)
            .map_or(false, |(g, alive)| *alive && *g == e.generation)
    }

    pub fn spawn_empty(&mut self) -> EntityMut<'_> {
        let entity = self.alloc();
        EntityMut {
            world: self,
            entity,
        }
    }

    pub fn spawn(&mut self, b: impl Bundle) -> EntityMut<'_> {
        let entity = self.alloc();
        b.insert_into(self, entity);
        EntityMut {
            world: self,
            entity,
        }
    }

    pub fn entity_mut(&mut self, entity: Entity) -> EntityMut<'_> {
        assert!(self.contains_entity(entity), "entity {entity:?} does not exist");
        EntityMut {
            world: self,
            entity,
        }
    }

    pub fn despawn(&mut self, e: Entity) -> bool {
        if !self.contains_entity(e) {
            return false;
        }
        for c in self.columns.values_mut() {
            c.remove(e.index as usize);
        }
        let slot = &mut self.entities[e.index as usize];
        slot.0 += 1;
        slot.1 = false;
        self.free.push(e.index);
        true
    }

    pub(crate) fn column<C: 'static>(&self) -> Option<&Column<C>> {
        self.columns
            .get(&TypeId::of::<C>())
            .map(|c| c.as_any().downcast_ref::<Column<C>>().unwrap())
    }

    pub(crate) fn insert_component<C: Component>(&mut self, e: Entity, c: C) {
        assert!(
            self.contains_entity(e),
            "could not insert a component: entity {e:?} does not exist"
        );
        let components = &mut self.components;
        let column = self
            .columns
            .entry(TypeId::of::<C>())
            .or_insert_with(|| {
                components.infos.push(ComponentInfo {
                    name: std::any::type_name::<C>(),
                });
                Box::new(Column::<C> {
                    values: vec![],
                    id: ComponentId(components.infos.len() - 1),
                })
            })
            .as_any_mut()
            .downcast_mut::<Column<C>>()
            .unwrap();
        let i = e.index as usize;
        if column.values.len() <= i {
            column.values.resize_with(i + 1, || None);
        }
        column.values[i] = Some(c);
    }

    pub(crate) fn remove_component<C: Component>(&mut self, e: Entity) {
        if !self.contains_entity(e) {
            return;
        }
        if let Some(c) = self.columns.get_mut(&TypeId::of::<C>()) {
            c.remove(e.index as usize);
        }
    }

    pub fn get<C: Component>(&self, e: Entity) -> Option<&C> {
        if !self.contains_entity(e) {
            return None;
        }
        self.column::<C>()?.values.get(e.index as usize)?.as_ref()
    }

    pub fn update_archetypes(&mut self) {
        let mut map: BTreeMap<Vec<ComponentId>, Archetype> = BTreeMap::new();
        for (index, (generation, alive)) in self.entities.iter().enumerate() {
            if !alive {
                continue;
            }
            let mut ids: Vec<ComponentId> = self
                .columns
                .values()
                .filter(|c| c.has(index))
                .map(|c| c.id())
                .collect();
            ids.sort();
            let a = map.entry(ids.clone()).or_default();
            a.components = ids;
            a.entities.push(Entity {
                generation: *generation,
                index: index as u32,
            });
        }
        self.archetypes = Archetypes {
            archetypes: map.into_values().collect(),
        };
    }

    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.resources.insert(TypeId::of::<R>(), Box::new(r));
    }
    pub fn init_resource<R: Resource + FromWorld>(&mut self) {
        if !self.contains_resource::<R>() {
            let r = R::from_world(self);
            self.insert_resource(r);
        }
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) {
        self.resources.insert(TypeId::of::<R>(), Box::new(r));
    }
    pub fn contains_resource<R: 'static>(&self) -> bool {
        self.resources.contains_key(&TypeId::of::<R>())
    }
    pub fn remove_resource<R: Resource>(&mut self) -> Option<R> {
        self.resources
            .remove(&TypeId::of::<R>())
            .map(|r| *r.downcast::<R>().unwrap())
    }
    pub(crate) fn res_raw<R: 'static>(&self) -> Option<&R> {
        self.resources
            .get(&TypeId::of::<R>())
            .map(|r| r.downcast_ref::<R>().unwrap())
    }
    pub(crate) fn res_raw_mut<R: 'static>(&mut self) -> Option<&mut R> {
        self.resources
            .get_mut(&TypeId::of::<R>())
            .map(|r| r.downcast_mut::<R>().unwrap())
    }
    pub fn get_resource<R: Resource>(&self) -> Option<&R> {
        self.res_raw::<R>()
    }
    pub fn resource<R: Resource>(&self) -> &R {
        self.res_raw::<R>()
            .unwrap_or_else(|| panic!("resource {} missing", std::any::type_name::<R>()))
    }
    pub fn resource_mut<R: Resource>(&mut self) -> Mut<'_, R> {
        Mut(self
            .res_raw_mut::<R>()
            .unwrap_or_else(|| panic!("resource {} missing", std::any::type_name::<R>())))
    }
    pub fn get_resource_mut<R: Resource>(&mut self) -> Option<Mut<'_, R>> {
        self.res_raw_mut::<R>().map(Mut)
    }
    pub fn get_resource_or_insert_with<R: Resource>(
        &mut self,
        f: impl FnOnce() -> R,
    ) -> Mut<'_, R> {
        if !self.contains_resource::<R>() {
            self.insert_resource(f());
        }
        self.resource_mut::<R>()
    }
    pub fn get_non_send_resource<R: 'static>(&self) -> Option<&R> {
        self.res_raw::<R>()
    }
    pub fn non_send_resource<R: 'static>(&self) -> &R {
        self.res_raw::<R>()
            .unwrap_or_else(|| panic!("resource {} missing", std::any::type_name::<R>()))
    }
    pub fn non_send_resource_mut<R: 'static>(&mut self) -> Mut<'_, R> {
        Mut(self
            .res_raw_mut::<R>()
            .unwrap_or_else(|| panic!("resource {} missing", std::any::type_name::<R>())))
    }

    pub fn query<Q: WorldQuery>(&mut self) -> QueryState<Q, ()> {
        QueryState(std::marker::PhantomData)
    }
    pub fn query_filtered<Q: WorldQuery, F: WorldQuery>(&mut self) -> QueryState<Q, F> {
        QueryState(std::marker::PhantomData)
    }
}

pub struct QueryState<Q, F>(std::marker::PhantomData<(Q, F)>);

impl<Q: WorldQuery, F: WorldQuery> QueryState<Q, F> {
    pub fn iter<'w>(
        &mut self,
        world: &'w World,
    ) -> impl Iterator<Item = <Q::ReadOnly as WorldQuery>::Item<'w>> + 'w
    where
        Q: 'w,
        F: 'w,
    {
        let q: Query<'w, 'w, Q, F> = unsafe { Query::new(world as *const World as *mut World) };
        q.into_iter_read()
    }
    pub fn iter_mut<'w>(&mut self, world: &'w mut World) -> impl Iterator<Item = Q::Item<'w>> + 'w
    where
        Q: 'w,
        F: 'w,
    {
        let q: Query<'w, 'w, Q, F> = unsafe { Query::new(world as *mut World) };
        q.into_iter_mut()
    }
}
