use std::ops::Deref;
use std::ops::DerefMut;

pub use bevy_ecs_macros::Resource;

use crate::archetype::Archetypes;
use crate::bundle::Bundle;
use crate::component::Component;
use crate::component::Components;
use crate::entity::Entity;
use crate::query::Query;
use crate::query::WorldQuery;
pub use crate::schedule::AsSystemLabel;
use crate::world::FromWorld;
use crate::world::World;

pub trait Resource: Send + Sync + 'static {}

pub unsafe trait SystemParam {
    type Item<'w, 's>;
    type State: 'static;
    fn init_state(world: &mut World) -> Self::State;
    unsafe fn get_param<'w, 's>(state: &'s mut Self::State, world: *mut World)
        -> Self::Item<'w, 's>;
    fn apply(_state: &mut Self::State, _world: &mut World) {}
}

unsafe impl<'a, 'b, Q: WorldQuery + 'static, F: WorldQuery + 'static> SystemParam
    for Query<'a, 'b, Q, F>
{
    type Item<'w, 's> = Query<'w, 's, Q, F>;
    type State = ();
    fn init_state(_: &mut World) {}
    unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> Self::Item<'w, 's> {
        Query::new(world)
    }
}

macro_rules! res_param {
    ($name:ident, $bound:path) => {
        pub struct $name<'w, T: 'static>(&'w T);
        impl<'w, T: 'static> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0
            }
        }
        impl<'w, T: 'static> AsRef<T> for $name<'w, T> {
            fn as_ref(&self) -> &T {
                self.0
            }
        }
        impl<'w, T: 'static> $name<'w, T> {
            pub fn into_inner(self) -> &'w T {
                self.0
            }
        }
        unsafe impl<'a, T: $bound + 'static> SystemParam for $name<'a, T> {
            type Item<'w, 's> = $name<'w, T>;
            type State = ();
            fn init_state(_: &mut World) {}
            unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> $name<'w, T> {
                $name((*world).res_raw::<T>().unwrap_or_else(|| {
                    panic!("resource {} missing", std::any::type_name::<T>())
                }))
            }
        }
        unsafe impl<'a, T: $bound + 'static> SystemParam for Option<$name<'a, T>> {
            type Item<'w, 's> = Option<$name<'w, T>>;
            type State = ();
            fn init_state(_: &mut World) {}
            unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> Option<$name<'w, T>> {
                (*world).res_raw::<T>().map($name)
            }
        }
    };
}
macro_rules! res_mut_param {
    ($name:ident, $bound:path) => {
        pub struct $name<'w, T: 'static>(&'w mut T);
        impl<'w, T: 'static> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0
            }
        }
        impl<'w, T: 'static> DerefMut for $name<'w, T> {
            fn deref_mut(&mut self) -> &mut T {
                self.0
            }
        }
        impl<'w, T: 'static> AsRef<T> for $name<'w, T> {
            fn as_ref(&self) -> &T {
                self.0
            }
        }
        impl<'w, T: 'static> $name<'w, T> {
            pub fn into_inner(self) -> &'w mut T {
                self.0
            }
        }
        unsafe impl<'a, T: $bound + 'static> SystemParam for $name<'a, T> {
            type Item<'w, 's> = $name<'w, T>;
            type State = ();
            fn init_state(_: &mut World) {}
            unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> $name<'w, T> {
                $name((*world).res_raw_mut::<T>().unwrap_or_else(|| {
                    panic!("resource {} missing", std::any::type_name::<T>())
                }))
            }
        }
        unsafe impl<'a, T: $bound + 'static> SystemParam for Option<$name<'a, T>> {
            type Item<'w, 's> = Option<$name<'w, T>>;
            type State = ();
            fn init_state(_: &mut World) {}
            unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> Option<$name<'w, T>> {
                (*world).res_raw_mut::<T>().map($name)
            }
        }
    };
}
pub trait Anything {}
impl<T: ?Sized> Anything for T {}
res_param!(Res, Resource);
res_param!(NonSend, Anything);
res_mut_param!(ResMut, Resource);
res_mut_param!(NonSendMut, Anything);

pub struct Local<'s, T: 'static>(&'s mut T);
impl<'s, T: 'static> Deref for Local<'s, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'s, T: 'static> DerefMut for Local<'s, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
unsafe impl<'a, T: FromWorld + 'static> SystemParam for Local<'a, T> {
    type Item<'w, 's> = Local<'s, T>;
    type State = T;
    fn init_state(world: &mut World) -> T {
        T::from_world(world)
    }
    unsafe fn get_param<'w, 's>(state: &'s mut T, _: *mut World) -> Self::Item<'w, 's> {
        Local(state)
    }
}

unsafe impl<'a> SystemParam for &'a Archetypes {
    type Item<'w, 's> = &'w Archetypes;
    type State = ();
    fn init_state(_: &mut World) {}
    unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> &'w Archetypes {
        (*world).update_archetypes();
        &(*world).archetypes
    }
}
unsafe impl<'a> SystemParam for &'a Components {
    type Item<'w, 's> = &'w Components;
    type State = ();
    fn init_state(_: &mut World) {}
    unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> &'w Components {
        &(*world).components
    }
}

type Command = Box<dyn FnOnce(&mut World)>;

#[derive(Default)]
pub struct CommandQueue(Vec<Command>);

pub struct Commands<'w, 's> {
    queue: &'s mut CommandQueue,
    world: *mut World,
    _w: std::marker::PhantomData<&'w ()>,
}

pub struct EntityCommands<'w, 's, 'a> {
    entity: Entity,
    commands: &'a mut Commands<'w, 's>,
}

impl<'w, 's> Commands<'w, 's> {
    pub fn add(&mut self, f: impl FnOnce(&mut World) + 'static) {
        self.queue.0.push(Box::new(f));
    }
    pub fn spawn_empty<'a>(&'a mut self) -> EntityCommands<'w, 's, 'a> {
        // bevy reserves the id at once; nothing else of the entity is visible before the flush.
        let entity = unsafe { (*self.world).alloc() };
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn spawn<'a>(&'a mut self, b: impl Bundle) -> EntityCommands<'w, 's, 'a> {
        let mut e = self.spawn_empty();
        e.insert(b);
        e
    }
    pub fn entity<'a>(&'a mut self, entity: Entity) -> EntityCommands<'w, 's, 'a> {
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.add(move |w| w.insert_resource(r));
    }
    pub fn remove_resource<R: Resource>(&mut self) {
        self.add(move |w| {
            w.remove_resource::<R>();
        });
    }
}

impl<'w, 's, 'a> EntityCommands<'w, 's, 'a> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert(&mut self, b: impl Bundle) -> &mut Self {
        let e = self.entity;
        self.commands.add(move |w| b.insert_into(w, e));
        self
    }
    pub fn remove<C: Component>(&mut self) -> &mut Self {
        let e = self.entity;
        self.commands.add(move |w| w.remove_component::<C>(e));
        self
    }
    pub fn despawn(&mut self) {
        let e = self.entity;
        self.commands.add(move |w| {
            w.despawn(e);
        });
    }
}

unsafe impl<'a, 'b> SystemParam for Commands<'a, 'b> {
    type Item<'w, 's> = Commands<'w, 's>;
    type State = CommandQueue;
    fn init_state(_: &mut World) -> CommandQueue {
        CommandQueue::default()
    }
    unsafe fn get_param<'w, 's>(
        queue: &'s mut CommandQueue,
        world: *mut World,
    ) -> Commands<'w, 's> {
        Commands {
            queue,
            world,
            _w: std::marker::PhantomData,
        }
    }
    fn apply(state: &mut CommandQueue, world: &mut World) {
        for c in std::mem::take(&mut state.0) {
            c(world);
        }
    }
}

pub type SystemParamItem<'w, 's, P> = <P as SystemParam>::Item<'w, 's>;

/// A function (or closure) whose arguments are all system parameters.
pub trait SystemParamFunction<Out, Marker>: 'static {
    type State: 'static;
    fn init_state(world: &mut World) -> Self::State;
    unsafe fn run_unsafe(&mut self, state: &mut Self::State, world: *mut World) -> Out;
    fn apply(state: &mut Self::State, world: &mut World);
}

macro_rules! impl_fn {
    ($($p:ident),*) => {
        #[allow(non_snake_case, unused_variables)]
        impl<Func: 'static, Out, $($p: SystemParam),*> SystemParamFunction<Out, fn($($p,)*) -> Out> for Func
        where
            for<'a> &'a mut Func: FnMut($($p),*) -> Out + FnMut($(SystemParamItem<$p>),*) -> Out,
        {
            type State = ($($p::State,)*);
            fn init_state(world: &mut World) -> Self::State { ($($p::init_state(world),)*) }
            unsafe fn run_unsafe(&mut self, state: &mut Self::State, world: *mut World) -> Out {
                fn call<Out, $($p),*>(mut f: impl FnMut($($p),*) -> Out, $($p: $p),*) -> Out { f($($p),*) }
                let ($($p,)*) = state;
                call(self, $($p::get_param($p, world)),*)
            }
            fn apply(state: &mut Self::State, world: &mut World) {
                let ($($p,)*) = state;
                $( $p::apply($p, world); )*
            }
        }
    };
}
impl_fn!();
impl_fn!(P0);
impl_fn!(P0, P1);
impl_fn!(P0, P1, P2);
impl_fn!(P0, P1, P2, P3);
impl_fn!(P0, P1, P2, P3, P4);
impl_fn!(P0, P1, P2, P3, P4, P5);
impl_fn!(P0, P1, P2, P3, P4, P5, P6);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12, P13);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12, P13, P14);
impl_fn!(P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12, P13, P14, P15);

pub trait System<Out>: 'static {
    fn run(&mut self, world: &mut World) -> Out;
    fn apply(&mut self, world: &mut World);
}

pub struct FunctionSystem<Out, Marker, F: SystemParamFunction<Out, Marker>> {
    pub(crate) f: F,
    pub(crate) state: Option<F::State>,
    pub(crate) _m: std::marker::PhantomData<fn() -> (Out, Marker)>,
}

impl<Out: 'static, Marker: 'static, F: SystemParamFunction<Out, Marker>> System<Out>
    for FunctionSystem<Out, Marker, F>
{
    fn run(&mut self, world: &mut World) -> Out {
        if self.state.is_none() {
            self.state = Some(F::init_state(world));
        }
        unsafe { self.f.run_unsafe(self.state.as_mut().unwrap(), world as *mut World) }
    }
    fn apply(&mut self, world: &mut World) {
        if let Some(s) = self.state.as_mut() {
            F::apply(s, world);
        }
    }
}
