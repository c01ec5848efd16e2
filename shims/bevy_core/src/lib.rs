//! Stand-in: bevy_core only sets up task pools, which the single-threaded schedule never uses.
use bevy_app::App;
use bevy_app::Plugin;

#[derive(Default)]
pub struct TaskPoolOptions;
impl TaskPoolOptions {
    pub fn with_num_threads(_n: usize) -> Self {
        Self
    }
}
pub struct CorePlugin {
    pub task_pool_options: TaskPoolOptions,
}
impl Plugin for CorePlugin {
    fn build(&self, _app: &mut App) {}
}
pub mod prelude {
    pub use super::TaskPoolOptions;
}
