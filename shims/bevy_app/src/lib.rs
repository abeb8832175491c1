//! Minimal stand-in for bevy_app 0.9 (see bevy_ecs).
use bevy_ecs::event::{Event, Events, ManualEventReader};
use bevy_ecs::prelude::*;
use bevy_ecs::schedule::{StateData, SystemSet};

#[derive(StageLabel, Clone, Copy, Debug, PartialEq, Eq)]
pub enum CoreStage {
    First,
    PreUpdate,
    Update,
    PostUpdate,
    Last,
}

#[derive(StageLabel, Clone, Copy, Debug, PartialEq, Eq)]
pub struct StartupSchedule;

#[derive(StageLabel, Clone, Copy, Debug, PartialEq, Eq)]
pub enum StartupStage {
    PreStartup,
    Startup,
    PostStartup,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct AppExit;

pub mod prelude {
    pub use crate::{App, CoreStage, Plugin, PluginGroup, StartupStage};
}

pub trait Plugin: 'static {
    fn build(&self, app: &mut App);
}

pub trait PluginGroup: Sized {
    fn build_group(self, app: &mut App);
}

pub struct App {
    pub world: World,
    pub schedule: Schedule,
    runner: Option<Box<dyn FnOnce(&mut App)>>,
}

impl Default for App {
    fn default() -> Self {
        let mut app = App {
            world: World::new(),
            schedule: Schedule::default(),
            runner: None,
        };
        app.world.init_resource::<Events<AppExit>>();
        app
    }
}

impl App {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn empty() -> Self {
        Self::default()
    }
    pub fn update(&mut self) {
        self.schedule.run(&mut self.world);
    }
    pub fn run(&mut self) {
        match self.runner.take() {
            Some(r) => r(self),
            None => self.update(),
        }
    }
    pub fn set_runner(&mut self, f: impl FnOnce(&mut App) + 'static) -> &mut Self {
        self.runner = Some(Box::new(f));
        self
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) -> &mut Self {
        self.world.insert_resource(r);
        self
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) -> &mut Self {
        self.world.insert_non_send_resource(r);
        self
    }
    pub fn add_event<T: Event>(&mut self) -> &mut Self {
        if !self.world.contains_resource::<Events<T>>() {
            self.world.init_resource::<Events<T>>();
            self.schedule
                .add_system_to_stage(CoreStage::First, Events::<T>::update_system);
        }
        self
    }
    pub fn add_state<S: StateData>(&mut self, _s: S) -> &mut Self {
        unimplemented!("states are not part of the stand-in")
    }
    pub fn add_plugin<T: Plugin>(&mut self, p: T) -> &mut Self {
        p.build(self);
        self
    }
    pub fn add_plugins<T: PluginGroup>(&mut self, p: T) -> &mut Self {
        p.build_group(self);
        self
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.schedule.add_stage_after(target, label, stage);
        self
    }
    fn startup(&mut self) -> &mut Schedule {
        self.schedule
            .get_stage_mut::<Schedule>(StartupSchedule)
            .expect("no startup schedule")
    }
    pub fn add_startup_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        self.startup().add_stage_after(target, label, stage);
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        l: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.schedule.add_system_to_stage(l, s);
        self
    }
    pub fn add_startup_system_to_stage<P>(
        &mut self,
        l: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        self.startup().add_system_to_stage(l, s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, l: impl StageLabel, s: SystemSet) -> &mut Self {
        self.schedule.add_system_set_to_stage(l, s);
        self
    }
}

/// Runs the schedule until an AppExit event is sent.
#[derive(Default)]
pub struct ScheduleRunnerPlugin;

impl Plugin for ScheduleRunnerPlugin {
    fn build(&self, app: &mut App) {
        app.set_runner(|app| {
            let mut reader = ManualEventReader::<AppExit>::default();
            loop {
                app.update();
                if let Some(ev) = app.world.get_resource::<Events<AppExit>>() {
                    if reader.iter(ev).last().is_some() {
                        break;
                    }
                }
            }
        });
    }
}
