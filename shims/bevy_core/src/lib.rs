//! Minimal stand-in for bevy_core 0.9 (see bevy_ecs).
#[derive(Clone, Debug, Default)]
pub struct TaskPoolOptions {
    pub threads: Option<usize>,
}
impl TaskPoolOptions {
    pub fn with_num_threads(n: usize) -> Self {
        Self { threads: Some(n) }
    }
}
#[derive(Default)]
pub struct CorePlugin {
    pub task_pool_options: TaskPoolOptions,
}
impl bevy_app::Plugin for CorePlugin {
    fn build(&self, _: &mut bevy_app::App) {}
}
pub mod prelude {
    pub use crate::TaskPoolOptions;
}
