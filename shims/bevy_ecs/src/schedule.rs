use std::any::{Any, TypeId};
use std::fmt::Debug;
use std::hash::Hash;

use crate::system::{AsSystemLabel, BoxedSystem, IntoSystem, Local, Resource, System};
use crate::world::World;
pub use bevy_ecs_macros::{StageLabel, SystemLabel};

#[derive(Clone, Copy, Debug)]
pub struct StageLabelId(TypeId, u32, &'static str);
#[derive(Clone, Copy, Debug)]
pub struct SystemLabelId(TypeId, u32, &'static str);

macro_rules! label {
    ($tr: ident, $id: ident) => {
        impl PartialEq for $id {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0 && self.1 == o.1
            }
        }
        impl Eq for $id {}
        impl Hash for $id {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h);
                self.1.hash(h);
            }
        }
        impl $id {
            pub fn as_str(&self) -> &'static str {
                self.2
            }
        }
        pub trait $tr: 'static {
            fn label_data(&self) -> (u32, &'static str);
            fn as_label(&self) -> $id {
                let (v, s) = self.label_data();
                $id(TypeId::of::<Self>(), v, s)
            }
            fn as_str(&self) -> &'static str {
                self.as_label().2
            }
        }
        impl $tr for $id {
            fn label_data(&self) -> (u32, &'static str) {
                (self.1, self.2)
            }
            fn as_label(&self) -> $id {
                *self
            }
        }
        impl $tr for &'static str {
            fn label_data(&self) -> (u32, &'static str) {
                // FNV over the text identifies string labels
                let h = self
                    .bytes()
                    .fold(2166136261u32, |h, b| (h ^ b as u32).wrapping_mul(16777619));
                (h, self)
            }
        }
    };
}
label!(StageLabel, StageLabelId);
label!(SystemLabel, SystemLabelId);

impl SystemLabelId {
    pub(crate) fn of_system<T: 'static>() -> Self {
        SystemLabelId(TypeId::of::<T>(), u32::MAX, std::any::type_name::<T>())
    }
    fn of_system_id(id: TypeId) -> Self {
        SystemLabelId(id, u32::MAX, "system")
    }
}

pub trait StateData: Send + Sync + Clone + Eq + Debug + Hash + 'static {}
impl<T: Send + Sync + Clone + Eq + Debug + Hash + 'static> StateData for T {}

pub struct ReportExecutionOrderAmbiguities;
impl Resource for ReportExecutionOrderAmbiguities {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ShouldRun {
    Yes,
    No,
    YesAndCheckAgain,
    NoAndCheckAgain,
}

impl ShouldRun {
    pub fn once(mut ran: Local<bool>) -> ShouldRun {
        if *ran {
            ShouldRun::No
        } else {
            *ran = true;
            ShouldRun::Yes
        }
    }
}
impl From<bool> for ShouldRun {
    fn from(b: bool) -> Self {
        if b {
            ShouldRun::Yes
        } else {
            ShouldRun::No
        }
    }
}
pub struct RunCriteria;

pub struct SystemDescriptor {
    system: BoxedSystem<(), ()>,
    labels: Vec<SystemLabelId>,
    before: Vec<SystemLabelId>,
    after: Vec<SystemLabelId>,
    criteria: Option<BoxedSystem<(), ShouldRun>>,
}
pub type ParallelSystemDescriptor = SystemDescriptor;

pub trait IntoRunCriteria<Marker> {
    fn into_criteria(self) -> BoxedSystem<(), ShouldRun>;
}
impl<T, Params> IntoRunCriteria<(Params,)> for T
where
    T: IntoSystem<(), ShouldRun, Params>,
{
    fn into_criteria(self) -> BoxedSystem<(), ShouldRun> {
        Box::new(IntoSystem::into_system(self))
    }
}

pub trait IntoSystemDescriptor<Params>: Sized {
    fn into_descriptor(self) -> SystemDescriptor;

    fn label(self, l: impl SystemLabel) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.labels.push(l.as_label());
        d
    }
    fn before<M>(self, l: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.before.push(l.as_system_label());
        d
    }
    fn after<M>(self, l: impl AsSystemLabel<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.after.push(l.as_system_label());
        d
    }
    fn with_run_criteria<M>(self, c: impl IntoRunCriteria<M>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.criteria = Some(c.into_criteria());
        d
    }
    fn ambiguous_with<M>(self, _: impl AsSystemLabel<M>) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn ignore_all_ambiguities(self) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn at_start(self) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn at_end(self) -> SystemDescriptor {
        self.into_descriptor()
    }
}

impl IntoSystemDescriptor<()> for SystemDescriptor {
    fn into_descriptor(self) -> SystemDescriptor {
        self
    }
}
impl<T, Params> IntoSystemDescriptor<(Params,)> for T
where
    T: IntoSystem<(), (), Params>,
{
    fn into_descriptor(self) -> SystemDescriptor {
        let system = Box::new(IntoSystem::into_system(self));
        let labels = vec![SystemLabelId::of_system_id(System::type_id(&*system))];
        SystemDescriptor {
            system,
            labels,
            before: vec![],
            after: vec![],
            criteria: None,
        }
    }
}

#[derive(Default)]
pub struct SystemSet {
    systems: Vec<SystemDescriptor>,
}
impl SystemSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.systems.push(s.into_descriptor());
        self
    }
    pub fn label(mut self, l: impl SystemLabel) -> Self {
        for s in self.systems.iter_mut() {
            s.labels.push(l.as_label());
        }
        self
    }
    pub fn before<M>(mut self, l: impl AsSystemLabel<M>) -> Self {
        let id = l.as_system_label();
        for s in self.systems.iter_mut() {
            s.before.push(id);
        }
        self
    }
    pub fn after<M>(mut self, l: impl AsSystemLabel<M>) -> Self {
        let id = l.as_system_label();
        for s in self.systems.iter_mut() {
            s.after.push(id);
        }
        self
    }
}

pub trait Stage: 'static {
    fn run(&mut self, world: &mut World);
    fn as_any_mut(&mut self) -> &mut dyn Any;
}

#[derive(Default)]
pub struct SystemStage {
    systems: Vec<SystemDescriptor>,
    order: Option<Vec<usize>>,
}

impl SystemStage {
    pub fn single_threaded() -> Self {
        Self::default()
    }
    pub fn parallel() -> Self {
        Self::default()
    }
    pub fn single<P>(s: impl IntoSystemDescriptor<P>) -> Self {
        Self::default().with_system(s)
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.add_system(s);
        self
    }
    pub fn add_system<P>(&mut self, s: impl IntoSystemDescriptor<P>) -> &mut Self {
        self.systems.push(s.into_descriptor());
        self.order = None;
        self
    }
    pub fn add_system_set(&mut self, set: SystemSet) -> &mut Self {
        self.systems.extend(set.systems);
        self.order = None;
        self
    }
    pub fn with_system_set(mut self, set: SystemSet) -> Self {
        self.add_system_set(set);
        self
    }

    /// Topological order; ties are resolved by insertion order.
    fn compute_order(&self) -> Vec<usize> {
        let n = self.systems.len();
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, s) in self.systems.iter().enumerate() {
            for (j, t) in self.systems.iter().enumerate() {
                if i == j {
                    continue;
                }
                if s.after.iter().any(|l| t.labels.contains(l)) {
                    preds[i].push(j);
                }
                if s.before.iter().any(|l| t.labels.contains(l)) {
                    preds[j].push(i);
                }
            }
        }
        let mut done = vec![false; n];
        let mut order = vec![];
        while order.len() < n {
            let next = (0..n).find(|i| !done[*i] && preds[*i].iter().all(|p| done[*p]));
            match next {
                Some(i) => {
                    done[i] = true;
                    order.push(i);
                }
                None => panic!("Found a dependency cycle in systems"),
            }
        }
        order
    }
}

impl Stage for SystemStage {
    fn run(&mut self, world: &mut World) {
        if self.order.is_none() {
            self.order = Some(self.compute_order());
        }
        let order = self.order.clone().unwrap();
        let should: Vec<bool> = self
            .systems
            .iter_mut()
            .map(|s| match &mut s.criteria {
                None => true,
                Some(c) => {
                    let r = c.run((), world);
                    c.apply_buffers(world);
                    matches!(r, ShouldRun::Yes | ShouldRun::YesAndCheckAgain)
                }
            })
            .collect();
        for i in order.iter() {
            if should[*i] {
                self.systems[*i].system.run((), world);
            }
        }
        for i in order.iter() {
            self.systems[*i].system.apply_buffers(world);
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Default)]
pub struct Schedule {
    stages: Vec<(StageLabelId, Box<dyn Stage>)>,
    criteria: Option<BoxedSystem<(), ShouldRun>>,
}

impl Schedule {
    pub fn with_run_criteria<M>(mut self, c: impl IntoRunCriteria<M>) -> Self {
        self.criteria = Some(c.into_criteria());
        self
    }
    pub fn with_stage<S: Stage>(mut self, label: impl StageLabel, stage: S) -> Self {
        self.add_stage(label, stage);
        self
    }
    pub fn add_stage<S: Stage>(&mut self, label: impl StageLabel, stage: S) -> &mut Self {
        let l = label.as_label();
        assert!(
            self.stages.iter().all(|(x, _)| *x != l),
            "Stage already exists: {l:?}."
        );
        self.stages.push((l, Box::new(stage)));
        self
    }
    fn pos(&self, l: StageLabelId) -> usize {
        self.stages
            .iter()
            .position(|(x, _)| *x == l)
            .unwrap_or_else(|| panic!("Stage '{l:?}' does not exist."))
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        let p = self.pos(target.as_label());
        self.stages
            .insert(p + 1, (label.as_label(), Box::new(stage)));
        self
    }
    pub fn add_stage_before<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        let p = self.pos(target.as_label());
        self.stages.insert(p, (label.as_label(), Box::new(stage)));
        self
    }
    pub fn get_stage_mut<S: Stage>(&mut self, l: impl StageLabel) -> Option<&mut S> {
        let l = l.as_label();
        self.stages
            .iter_mut()
            .find(|(x, _)| *x == l)
            .and_then(|(_, s)| s.as_any_mut().downcast_mut::<S>())
    }
    pub fn stage<S: Stage, F: FnOnce(&mut S) -> &mut S>(
        &mut self,
        l: impl StageLabel,
        f: F,
    ) -> &mut Self {
        let l = l.as_label();
        f(self
            .get_stage_mut::<S>(l)
            .unwrap_or_else(|| panic!("stage '{l:?}' does not exist or is the wrong type")));
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        l: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        let l = l.as_label();
        self.get_stage_mut::<SystemStage>(l)
            .unwrap_or_else(|| panic!("Stage '{l:?}' does not exist or is not a SystemStage"))
            .add_system(s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, l: impl StageLabel, s: SystemSet) -> &mut Self {
        let l = l.as_label();
        self.get_stage_mut::<SystemStage>(l)
            .unwrap_or_else(|| panic!("Stage '{l:?}' does not exist or is not a SystemStage"))
            .add_system_set(s);
        self
    }
    pub fn run_once(&mut self, world: &mut World) {
        for (_, s) in self.stages.iter_mut() {
            s.run(world);
        }
    }
    pub fn iter_stages(&self) -> impl Iterator<Item = StageLabelId> + '_ {
        self.stages.iter().map(|(l, _)| *l)
    }
}

impl Stage for Schedule {
    fn run(&mut self, world: &mut World) {
        let run = match &mut self.criteria {
            None => true,
            Some(c) => {
                let r = c.run((), world);
                c.apply_buffers(world);
                matches!(r, ShouldRun::Yes | ShouldRun::YesAndCheckAgain)
            }
        };
        if run {
            self.run_once(world);
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}
