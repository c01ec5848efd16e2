//! Stand-in for the part of bevy_app that subsweep uses.
use bevy_ecs::event::Event;
use bevy_ecs::event::Events;
use bevy_ecs::event::ManualEventReader;
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::StateData;

pub mod prelude {
    pub use super::App;
    pub use super::AppExit;
    pub use super::CoreStage;
    pub use super::Plugin;
    pub use super::PluginGroup;
}

#[derive(Debug, Clone, Default)]
pub struct AppExit;

#[derive(StageLabel)]
pub enum CoreStage {
    First,
    PreUpdate,
    Update,
    PostUpdate,
    Last,
}

#[derive(StageLabel)]
pub struct StartupSchedule;

pub trait Plugin: 'static {
    fn build(&self, app: &mut App);
}

pub trait PluginGroup: Sized {
    fn build_all(self, app: &mut App);
}

pub struct App {
    pub world: World,
    pub schedule: Schedule,
    pub runner: Box<dyn Fn(App)>,
}

impl Default for App {
    fn default() -> Self {
        let mut world = World::new();
        world.insert_resource(Events::<AppExit>::default());
        Self {
            world,
            schedule: Schedule::default(),
            runner: Box::new(|mut app: App| app.update()),
        }
    }
}

impl App {
    pub fn update(&mut self) {
        self.schedule.run(&mut self.world);
    }

    pub fn run(&mut self) {
        let mut app = std::mem::take(self);
        let runner = std::mem::replace(&mut app.runner, Box::new(|_| {}));
        runner(app);
    }

    pub fn set_runner(&mut self, f: impl Fn(App) + 'static) -> &mut Self {
        self.runner = Box::new(f);
        self
    }

    pub fn add_plugin<T: Plugin>(&mut self, plugin: T) -> &mut Self {
        plugin.build(self);
        self
    }

    pub fn add_plugins<T: PluginGroup>(&mut self, group: T) -> &mut Self {
        group.build_all(self);
        self
    }

    pub fn insert_resource<R: Resource>(&mut self, r: R) -> &mut Self {
        self.world.insert_resource(r);
        self
    }

    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) -> &mut Self {
        self.world.insert_non_send_resource(r);
        self
    }

    pub fn add_event<T: Event>(&mut self) -> &mut Self {
        if !self.world.contains_resource::<Events<T>>() {
            self.world.insert_resource(Events::<T>::default());
            self.schedule
                .add_system_to_stage(CoreStage::First, Events::<T>::update_system);
        }
        self
    }

    pub fn add_state(&mut self, _s: impl StateData) -> &mut Self {
        unimplemented!("states are not used by subsweep")
    }

    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.add_stage_after(target, label, stage);
        self
    }

    pub fn add_startup_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.stage(StartupSchedule, |s: &mut Schedule| {
            s.add_stage_after(target, label, stage)
        });
        self
    }

    pub fn add_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        system: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule.add_system_to_stage(label, system);
        self
    }

    pub fn add_startup_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        system: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule.stage(StartupSchedule, |s: &mut Schedule| {
            s.add_system_to_stage(label, system)
        });
        self
    }

    pub fn add_system_set_to_stage(
        &mut self,
        label: impl StageLabel,
        set: SystemSet,
    ) -> &mut Self {
        self.schedule.add_system_set_to_stage(label, set);
        self
    }
}

/// Runs the schedule until an AppExit event was sent.
pub struct ScheduleRunnerPlugin;

impl Plugin for ScheduleRunnerPlugin {
    fn build(&self, app: &mut App) {
        app.set_runner(|mut app: App| {
            let mut reader = ManualEventReader::<AppExit>::default();
            loop {
                app.update();
                let exit = app.world.resource::<Events<AppExit>>();
                if reader.iter(exit).next().is_some() {
                    break;
                }
            }
        });
    }
}
