use std::marker::PhantomData;

use crate::component::Component;
use crate::entity::Entity;
use crate::world::Column;
use crate::world::Mut;
use crate::world::World;

pub unsafe trait WorldQuery {
    type Item<'w>;
    type State: Copy;
    type ReadOnly: WorldQuery<State = Self::State>;
    fn init(world: &World) -> Self::State;
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Self::Item<'w>>;
}

unsafe impl<T: Component> WorldQuery for &T {
    type Item<'w> = &'w T;
    type State = *const Column<T>;
    type ReadOnly = Self;
    fn init(world: &World) -> Self::State {
        world
            .column::<T>()
            .map_or(std::ptr::null(), |c| c as *const Column<T>)
    }
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<&'w T> {
        if state.is_null() {
            return None;
        }
        (&(*state).values).get(e.index as usize)?.as_ref()
    }
}

unsafe impl<T: Component> WorldQuery for &mut T {
    type Item<'w> = Mut<'w, T>;
    type State = *const Column<T>;
    type ReadOnly = &'static T;
    fn init(world: &World) -> Self::State {
        <&T as WorldQuery>::init(world)
    }
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Mut<'w, T>> {
        if state.is_null() {
            return None;
        }
        let col = state as *mut Column<T>;
        let values = &mut *std::ptr::addr_of_mut!((*col).values);
        values.get_mut(e.index as usize)?.as_mut().map(Mut)
    }
}

unsafe impl<Q: WorldQuery> WorldQuery for Option<Q> {
    type Item<'w> = Option<Q::Item<'w>>;
    type State = Q::State;
    type ReadOnly = Option<Q::ReadOnly>;
    fn init(world: &World) -> Self::State {
        Q::init(world)
    }
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Self::Item<'w>> {
        Some(Q::get(state, e))
    }
}

unsafe impl WorldQuery for Entity {
    type Item<'w> = Entity;
    type State = ();
    type ReadOnly = Self;
    fn init(_: &World) {}
    unsafe fn get<'w>(_: (), e: Entity) -> Option<Self::Item<'w>> {
        Some(e)
    }
}

pub struct With<T>(PhantomData<T>);
unsafe impl<T: Component> WorldQuery for With<T> {
    type Item<'w> = ();
    type State = *const Column<T>;
    type ReadOnly = Self;
    fn init(world: &World) -> Self::State {
        <&T as WorldQuery>::init(world)
    }
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Self::Item<'w>> {
        <&T as WorldQuery>::get(state, e).map(|_| ())
    }
}

pub struct Without<T>(PhantomData<T>);
unsafe impl<T: Component> WorldQuery for Without<T> {
    type Item<'w> = ();
    type State = *const Column<T>;
    type ReadOnly = Self;
    fn init(world: &World) -> Self::State {
        <&T as WorldQuery>::init(world)
    }
    unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Self::Item<'w>> {
        match <&T as WorldQuery>::get(state, e) {
            Some(_) => None,
            None => Some(()),
        }
    }
}

macro_rules! tuple_query {
    ($($t:ident),*) => {
        #[allow(non_snake_case, unused_variables, clippy::unused_unit)]
        unsafe impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
            type Item<'w> = ($($t::Item<'w>,)*);
            type State = ($($t::State,)*);
            type ReadOnly = ($($t::ReadOnly,)*);
            fn init(world: &World) -> Self::State { ($($t::init(world),)*) }
            unsafe fn get<'w>(state: Self::State, e: Entity) -> Option<Self::Item<'w>> {
                let ($($t,)*) = state;
                Some(($($t::get($t, e)?,)*))
            }
        }
    };
}
tuple_query!();
tuple_query!(A);
tuple_query!(A, B);
tuple_query!(A, B, C);
tuple_query!(A, B, C, D);
tuple_query!(A, B, C, D, E);
tuple_query!(A, B, C, D, E, F);
tuple_query!(A, B, C, D, E, F, G);
tuple_query!(A, B, C, D, E, F, G, H);
tuple_query!(A, B, C, D, E, F, G, H, I);
tuple_query!(A, B, C, D, E, F, G, H, I, J);
tuple_query!(A, B, C, D, E, F, G, H, I, J, K);
tuple_query!(A, B, C, D, E, F, G, H, I, J, K, L);

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum QueryEntityError {
    QueryDoesNotMatch(Entity),
    NoSuchEntity(Entity),
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum QuerySingleError {
    NoEntities,
    MultipleEntities,
}

pub struct Query<'w, 's, Q: WorldQuery, F: WorldQuery = ()> {
    world: *mut World,
    _marker: PhantomData<(&'w (), &'s (), fn() -> (Q, F))>,
}

impl<'w, 's, Q: WorldQuery, F: WorldQuery> Query<'w, 's, Q, F> {
    pub(crate) unsafe fn new(world: *mut World) -> Self {
        Self {
            world,
            _marker: PhantomData,
        }
    }

    fn entities(world: *mut World) -> impl Iterator<Item = Entity> {
        let n = unsafe { (*world).entities.len() };
        (0..n).filter_map(move |i| {
            let (generation, alive) = unsafe { (&(*world).entities)[i] };
            alive.then_some(Entity {
                generation,
                index: i as u32,
            })
        })
    }

    pub(crate) fn into_iter_read<'a>(
        self,
    ) -> impl Iterator<Item = <Q::ReadOnly as WorldQuery>::Item<'a>> + 'a
    where
        Q: 'a,
        F: 'a,
    {
        let (q, f) = unsafe { (Q::init(&*self.world), F::init(&*self.world)) };
        Self::entities(self.world).filter_map(move |e| unsafe {
            F::get(f, e)?;
            <Q::ReadOnly as WorldQuery>::get(q, e)
        })
    }

    pub(crate) fn into_iter_mut<'a>(self) -> impl Iterator<Item = Q::Item<'a>> + 'a
    where
        Q: 'a,
        F: 'a,
    {
        let (q, f) = unsafe { (Q::init(&*self.world), F::init(&*self.world)) };
        Self::entities(self.world).filter_map(move |e| unsafe {
            F::get(f, e)?;
            Q::get(q, e)
        })
    }

    pub fn iter<'a>(
        &'a self,
    ) -> impl ExactSizeIterator<Item = <Q::ReadOnly as WorldQuery>::Item<'a>> + 'a
    where
        Q: 'a,
        F: 'a,
    {
        unsafe { Query::<'a, 'a, Q, F>::new(self.world) }.into_iter_read().collect::<Vec<_>>().into_iter()
    }

    pub fn iter_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = Q::Item<'a>> + 'a
    where
        Q: 'a,
        F: 'a,
    {
        unsafe { Query::<'a, 'a, Q, F>::new(self.world) }.into_iter_mut().collect::<Vec<_>>().into_iter()
    }

    pub fn get<'a>(
        &'a self,
        e: Entity,
    ) -> Result<<Q::ReadOnly as WorldQuery>::Item<'a>, QueryEntityError> {
        unsafe {
            if !(*self.world).contains_entity(e) {
                return Err(QueryEntityError::NoSuchEntity(e));
            }
            let (q, f) = (Q::init(&*self.world), F::init(&*self.world));
            F::get(f, e)
                .and_then(|_| <Q::ReadOnly as WorldQuery>::get(q, e))
                .ok_or(QueryEntityError::QueryDoesNotMatch(e))
        }
    }

    pub fn get_mut<'a>(&'a mut self, e: Entity) -> Result<Q::Item<'a>, QueryEntityError> {
        unsafe {
            if !(*self.world).contains_entity(e) {
                return Err(QueryEntityError::NoSuchEntity(e));
            }
            let (q, f) = (Q::init(&*self.world), F::init(&*self.world));
            F::get(f, e)
                .and_then(|_| Q::get(q, e))
                .ok_or(QueryEntityError::QueryDoesNotMatch(e))
        }
    }

    pub fn contains(&self, e: Entity) -> bool {
        self.get(e).is_ok()
    }

    pub fn get_component<'a, T: Component>(&'a self, e: Entity) -> Result<&'a T, QueryEntityError> {
        unsafe {
            (*self.world)
                .get::<T>(e)
                .ok_or(QueryEntityError::QueryDoesNotMatch(e))
        }
    }

    pub fn get_single(
        &self,
    ) -> Result<<Q::ReadOnly as WorldQuery>::Item<'_>, QuerySingleError> {
        let mut it = self.iter();
        match (it.next(), it.next()) {
            (Some(x), None) => Ok(x),
            (None, _) => Err(QuerySingleError::NoEntities),
            _ => Err(QuerySingleError::MultipleEntities),
        }
    }

    pub fn single(&self) -> <Q::ReadOnly as WorldQuery>::Item<'_> {
        self.get_single().unwrap_or_else(|e| panic!("{e:?}"))
    }

    pub fn get_single_mut(&mut self) -> Result<Q::Item<'_>, QuerySingleError> {
        let mut it = self.iter_mut();
        match (it.next(), it.next()) {
            (Some(x), None) => Ok(x),
            (None, _) => Err(QuerySingleError::NoEntities),
            _ => Err(QuerySingleError::MultipleEntities),
        }
    }

    pub fn single_mut(&mut self) -> Q::Item<'_> {
        self.get_single_mut().unwrap_or_else(|e| panic!("{e:?}"))
    }

    pub fn iter_many<'a, E: std::borrow::Borrow<Entity>>(
        &'a self,
        entities: impl IntoIterator<Item = E> + 'a,
    ) -> impl Iterator<Item = <Q::ReadOnly as WorldQuery>::Item<'a>> + 'a {
        entities.into_iter().filter_map(move |e| self.get(*e.borrow()).ok())
    }

    pub fn for_each<'a>(&'a self, f: impl FnMut(<Q::ReadOnly as WorldQuery>::Item<'a>))
    where
        Q: 'a,
        F: 'a,
    {
        self.iter().for_each(f)
    }

    pub fn for_each_mut<'a>(&'a mut self, f: impl FnMut(Q::Item<'a>))
    where
        Q: 'a,
        F: 'a,
    {
        self.iter_mut().for_each(f)
    }

    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
}

type BoxIter<'a, T> = Box<dyn Iterator<Item = T> + 'a>;

impl<'a, 'w, 's, Q: WorldQuery + 'a, F: WorldQuery + 'a> IntoIterator for &'a Query<'w, 's, Q, F> {
    type Item = <Q::ReadOnly as WorldQuery>::Item<'a>;
    type IntoIter = BoxIter<'a, Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        Box::new(self.iter())
    }
}

impl<'a, 'w, 's, Q: WorldQuery + 'a, F: WorldQuery + 'a> IntoIterator
    for &'a mut Query<'w, 's, Q, F>
{
    type Item = Q::Item<'a>;
    type IntoIter = BoxIter<'a, Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        Box::new(self.iter_mut())
    }
}
