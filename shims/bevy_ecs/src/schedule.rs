use std::any::Any;
use std::any::TypeId;
use std::marker::PhantomData;

pub use bevy_ecs_macros::StageLabel;
pub use bevy_ecs_macros::SystemLabel;

use crate::system::FunctionSystem;
use crate::system::Resource;
use crate::system::System;
use crate::system::SystemParamFunction;
use crate::world::World;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct StageLabelId(TypeId, &'static str);

impl StageLabelId {
    pub fn as_str(&self) -> &'static str {
        self.1
    }
}

pub trait StageLabel: 'static {
    fn as_str(&self) -> &'static str;
    fn as_label(&self) -> StageLabelId {
        StageLabelId(TypeId::of::<Self>(), self.as_str())
    }
}

impl StageLabel for StageLabelId {
    fn as_str(&self) -> &'static str {
        self.1
    }
    fn as_label(&self) -> StageLabelId {
        *self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct SystemLabelId(TypeId, &'static str);

pub trait SystemLabel: 'static {
    fn as_str(&self) -> &'static str;
    fn as_label(&self) -> SystemLabelId {
        SystemLabelId(TypeId::of::<Self>(), self.as_str())
    }
}

impl SystemLabel for SystemLabelId {
    fn as_str(&self) -> &'static str {
        self.1
    }
    fn as_label(&self) -> SystemLabelId {
        *self
    }
}

pub struct IsLabel;

pub trait AsSystemLabel<Marker> {
    fn as_system_label(&self) -> SystemLabelId;
}

impl<L: SystemLabel> AsSystemLabel<IsLabel> for L {
    fn as_system_label(&self) -> SystemLabelId {
        self.as_label()
    }
}

impl<Out, M, F> AsSystemLabel<(Out, M)> for F
where
    F: SystemParamFunction<Out, M>,
{
    fn as_system_label(&self) -> SystemLabelId {
        SystemLabelId(TypeId::of::<F>(), "")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ShouldRun {
    Yes,
    No,
    YesAndCheckAgain,
    NoAndCheckAgain,
}

impl ShouldRun {
    pub fn once(mut ran: crate::system::Local<bool>) -> ShouldRun {
        if *ran {
            ShouldRun::No
        } else {
            *ran = true;
            ShouldRun::Yes
        }
    }
}

fn should_run(r: ShouldRun) -> bool {
    match r {
        ShouldRun::Yes => true,
        ShouldRun::No => false,
        _ => unimplemented!("looping run criteria"),
    }
}

pub struct ReportExecutionOrderAmbiguities;
impl Resource for ReportExecutionOrderAmbiguities {}

pub trait StateData: Send + Sync + Clone + Eq + std::fmt::Debug + std::hash::Hash + 'static {}
impl<T: Send + Sync + Clone + Eq + std::fmt::Debug + std::hash::Hash + 'static> StateData for T {}

pub struct SystemDescriptor {
    pub(crate) system: Box<dyn System<()>>,
    labels: Vec<SystemLabelId>,
    before: Vec<SystemLabelId>,
    after: Vec<SystemLabelId>,
    criteria: Option<Box<dyn System<ShouldRun>>>,
}

pub struct IsFunction;
pub struct IsDescriptor;

pub trait IntoSystemDescriptor<Params>: Sized {
    fn into_descriptor(self) -> SystemDescriptor;

    fn before<M>(self, label: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.before.push(label.as_system_label());
        d
    }
    fn after<M>(self, label: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.after.push(label.as_system_label());
        d
    }
    fn label(self, label: impl SystemLabel) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.labels.push(label.as_label());
        d
    }
    fn ambiguous_with<M>(self, _label: impl AsSystemLabel<M>) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn with_run_criteria<M: 'static, F: SystemParamFunction<ShouldRun, M>>(
        self,
        f: F,
    ) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.criteria = Some(Box::new(FunctionSystem {
            f,
            state: None,
            _m: PhantomData,
        }));
        d
    }
}

impl<M: 'static, F: SystemParamFunction<(), M>> IntoSystemDescriptor<(IsFunction, M)> for F {
    fn into_descriptor(self) -> SystemDescriptor {
        SystemDescriptor {
            labels: vec![SystemLabelId(TypeId::of::<F>(), "")],
            before: vec![],
            after: vec![],
            criteria: None,
            system: Box::new(FunctionSystem {
                f: self,
                state: None,
                _m: PhantomData,
            }),
        }
    }
}

impl IntoSystemDescriptor<IsDescriptor> for SystemDescriptor {
    fn into_descriptor(self) -> SystemDescriptor {
        self
    }
}

#[derive(Default)]
pub struct SystemSet {
    systems: Vec<SystemDescriptor>,
}

impl SystemSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.systems.push(s.into_descriptor());
        self
    }
}

pub trait Stage: Any {
    fn run(&mut self, world: &mut World);
    fn as_any_mut(&mut self) -> &mut dyn Any;
}

#[derive(Default)]
pub struct SystemStage {
    systems: Vec<SystemDescriptor>,
}

impl SystemStage {
    pub fn single_threaded() -> Self {
        Self::default()
    }
    pub fn parallel() -> Self {
        Self::default()
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.systems.push(s.into_descriptor());
        self
    }
    pub fn add_system<P>(&mut self, s: impl IntoSystemDescriptor<P>) -> &mut Self {
        self.systems.push(s.into_descriptor());
        self
    }
    pub fn add_system_set(&mut self, set: SystemSet) -> &mut Self {
        self.systems.extend(set.systems);
        self
    }

    /// Stable topological order of the systems under before/after.
    fn order(&self) -> Vec<usize> {
        let n = self.systems.len();
        let mut deps: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let (a, b) = (&self.systems[i], &self.systems[j]);
                if a.after.iter().any(|l| b.labels.contains(l))
                    || b.before.iter().any(|l| a.labels.contains(l))
                {
                    deps[i].push(j);
                }
            }
        }
        let mut done = vec![false; n];
        let mut order = vec![];
        while order.len() < n {
            let next = (0..n)
                .find(|&i| !done[i] && deps[i].iter().all(|&j| done[j]))
                .expect("cycle in the system order of a stage");
            done[next] = true;
            order.push(next);
        }
        order
    }
}

impl Stage for SystemStage {
    fn run(&mut self, world: &mut World) {
        let order = self.order();
        let run: Vec<bool> = self
            .systems
            .iter_mut()
            .map(|s| s.criteria.as_mut().map_or(true, |c| should_run(c.run(world))))
            .collect();
        for &i in &order {
            if run[i] {
                self.systems[i].system.run(world);
            }
        }
        for &i in &order {
            self.systems[i].system.apply(world);
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Default)]
pub struct Schedule {
    stages: Vec<(StageLabelId, Box<dyn Stage>)>,
    criteria: Option<Box<dyn System<ShouldRun>>>,
}

impl Schedule {
    pub fn with_run_criteria<M: 'static, F: SystemParamFunction<ShouldRun, M>>(
        mut self,
        f: F,
    ) -> Self {
        self.criteria = Some(Box::new(FunctionSystem {
            f,
            state: None,
            _m: PhantomData,
        }));
        self
    }
    pub fn add_stage<S: Stage>(&mut self, label: impl StageLabel, stage: S) -> &mut Self {
        let l = label.as_label();
        assert!(self.position(l).is_none(), "stage {} exists", l.as_str());
        self.stages.push((l, Box::new(stage)));
        self
    }
    fn position(&self, l: StageLabelId) -> Option<usize> {
        self.stages.iter().position(|(x, _)| *x == l)
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        let p = self.position(target.as_label()).expect("no such stage");
        self.stages.insert(p + 1, (label.as_label(), Box::new(stage)));
        self
    }
    pub fn stage<S: Stage>(
        &mut self,
        label: impl StageLabel,
        f: impl FnOnce(&mut S) -> &mut S,
    ) -> &mut Self {
        let l = label.as_label();
        let p = self
            .position(l)
            .unwrap_or_else(|| panic!("no such stage: {}", l.as_str()));
        f(self.stages[p].1.as_any_mut().downcast_mut::<S>().unwrap());
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        system: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.stage(label, move |s: &mut SystemStage| s.add_system(system))
    }
    pub fn add_system_set_to_stage(
        &mut self,
        label: impl StageLabel,
        set: SystemSet,
    ) -> &mut Self {
        self.stage(label, move |s: &mut SystemStage| s.add_system_set(set))
    }
    pub fn run_once(&mut self, world: &mut World) {
        for (_, s) in self.stages.iter_mut() {
            s.run(world);
        }
    }
}

impl Stage for Schedule {
    fn run(&mut self, world: &mut World) {
        if self
            .criteria
            .as_mut()
            .map_or(true, |c| should_run(c.run(world)))
        {
            self.run_once(world);
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}
