//! A minimal, sequential stand-in for the fork of bevy_ecs 0.9 which subsweep
//! depends on (the fork cannot be fetched in the sandbox). It implements the
//! parts of the API that subsweep uses with the semantics of bevy 0.9:
//! commands are applied at the end of a stage, run criteria are evaluated
//! before any of the systems of the stage run, events are double buffered.
extern crate self as bevy_ecs;

pub mod archetype;
pub mod bundle;
pub mod event;
pub mod query;
pub mod schedule;
pub mod system;
pub mod world;

pub mod component {
    pub trait Component: Send + Sync + 'static {}
    pub use crate::archetype::{ComponentId, ComponentInfo, Components};
    pub use bevy_ecs_macros::Component;
}

pub mod entity {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Entity {
        pub(crate) generation: u32,
        pub(crate) index: u32,
    }

    impl Entity {
        pub const PLACEHOLDER: Self = Self::from_raw(u32::MAX);
        pub const fn from_raw(index: u32) -> Entity {
            Entity {
                index,
                generation: 0,
            }
        }
        pub const fn to_bits(self) -> u64 {
            (self.generation as u64) << 32 | self.index as u64
        }
        pub const fn from_bits(bits: u64) -> Self {
            Self {
                generation: (bits >> 32) as u32,
                index: bits as u32,
            }
        }
        pub const fn index(self) -> u32 {
            self.index
        }
        pub const fn generation(self) -> u32 {
            self.generation
        }
    }

    impl std::fmt::Debug for Entity {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}v{}", self.index, self.generation)
        }
    }
}

pub mod change_detection {
    pub use crate::system::Mut;
}

pub mod prelude {
    pub use crate::bundle::Bundle;
    pub use crate::component::Component;
    pub use crate::entity::Entity;
    pub use crate::event::{EventReader, EventWriter, Events};
    pub use crate::query::{Or, Query, With, Without};
    pub use crate::schedule::{
        IntoSystemDescriptor, RunCriteria, Schedule, Stage, StageLabel, SystemLabel, SystemSet,
        SystemStage,
    };
    pub use crate::system::{
        Commands, Local, Mut, NonSend, NonSendMut, Res, ResMut, Resource, System,
    };
    pub use crate::world::{FromWorld, World};
}
