use std::any::TypeId;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

use crate::archetype::{Archetypes, Components};
use crate::bundle::Bundle;
use crate::entity::Entity;
use crate::query::{Query, ReadOnlyWorldQuery, WorldQuery};
use crate::schedule::SystemLabelId;
use crate::world::{FromWorld, World};
pub use bevy_ecs_macros::Resource;

pub trait Resource: 'static {}

macro_rules! wrapper {
    ($name: ident, mut) => {
        pub struct $name<'w, T: ?Sized> {
            pub(crate) value: &'w mut T,
        }
        impl<'w, T: ?Sized> DerefMut for $name<'w, T> {
            fn deref_mut(&mut self) -> &mut T {
                self.value
            }
        }
        impl<'w, T: ?Sized> $name<'w, T> {
            pub fn into_inner(self) -> &'w mut T {
                self.value
            }
        }
        impl<'w, T: ?Sized> AsMut<T> for $name<'w, T> {
            fn as_mut(&mut self) -> &mut T {
                self.value
            }
        }
        wrapper!(@common $name);
    };
    ($name: ident) => {
        pub struct $name<'w, T: ?Sized> {
            pub(crate) value: &'w T,
        }
        impl<'w, T: ?Sized> $name<'w, T> {
            pub fn into_inner(self) -> &'w T {
                self.value
            }
        }
        wrapper!(@common $name);
    };
    (@common $name: ident) => {
        impl<'w, T: ?Sized> Deref for $name<'w, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.value
            }
        }
        impl<'w, T: ?Sized> AsRef<T> for $name<'w, T> {
            fn as_ref(&self) -> &T {
                self.value
            }
        }
        impl<'w, T: ?Sized + std::fmt::Debug> std::fmt::Debug for $name<'w, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.value.fmt(f)
            }
        }
        impl<'w, 'a, T> IntoIterator for &'a $name<'w, T>
        where
            &'a T: IntoIterator,
        {
            type Item = <&'a T as IntoIterator>::Item;
            type IntoIter = <&'a T as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                (&*self.value).into_iter()
            }
        }
    };
}
wrapper!(Mut, mut);
wrapper!(ResMut, mut);
wrapper!(NonSendMut, mut);
wrapper!(Res);
wrapper!(NonSend);

impl<'w, T> Res<'w, T> {
    #[allow(clippy::should_implement_trait)]
    pub fn clone(this: &Self) -> Self {
        Res { value: this.value }
    }
}
impl<'w, T> From<ResMut<'w, T>> for Res<'w, T> {
    fn from(r: ResMut<'w, T>) -> Self {
        Res { value: r.value }
    }
}

pub struct Local<'s, T>(pub(crate) &'s mut T);
impl<'s, T> Deref for Local<'s, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<'s, T> DerefMut for Local<'s, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}

/// # Safety
/// `get` hands out references into the world for the lifetime 'w.
pub unsafe trait SystemParam {
    type State: 'static;
    type Item<'w, 's>;
    fn init(world: &mut World) -> Self::State;
    unsafe fn get<'w, 's>(state: &'s mut Self::State, world: *mut World) -> Self::Item<'w, 's>;
    fn apply(_state: &mut Self::State, _world: &mut World) {}
}

pub(crate) unsafe fn res_ref<'w, T: 'static>(w: *mut World) -> &'w T {
    &*((*w).resource_ptr::<T>().unwrap_or_else(|| {
        panic!(
            "Resource requested by system does not exist: {}",
            std::any::type_name::<T>()
        )
    }))
}
pub(crate) unsafe fn res_mut<'w, T: 'static>(w: *mut World) -> &'w mut T {
    &mut *((*w).resource_ptr::<T>().unwrap_or_else(|| {
        panic!(
            "Resource requested by system does not exist: {}",
            std::any::type_name::<T>()
        )
    }))
}

macro_rules! res_param {
    ($name: ident, $f: ident, $b: path) => {
        unsafe impl<T: $b + 'static> SystemParam for $name<'_, T> {
            type State = ();
            type Item<'w, 's> = $name<'w, T>;
            fn init(_: &mut World) {}
            unsafe fn get<'w, 's>(_: &'s mut (), w: *mut World) -> Self::Item<'w, 's> {
                $name { value: $f::<T>(w) }
            }
        }
        unsafe impl<T: $b + 'static> SystemParam for Option<$name<'_, T>> {
            type State = ();
            type Item<'w, 's> = Option<$name<'w, T>>;
            fn init(_: &mut World) {}
            unsafe fn get<'w, 's>(_: &'s mut (), w: *mut World) -> Self::Item<'w, 's> {
                if (*w).contains_resource::<T>() {
                    Some($name { value: $f::<T>(w) })
                } else {
                    None
                }
            }
        }
    };
}
pub trait AnyType {}
impl<T> AnyType for T {}
res_param!(Res, res_ref, Resource);
res_param!(ResMut, res_mut, Resource);
res_param!(NonSend, res_ref, AnyType);
res_param!(NonSendMut, res_mut, AnyType);

unsafe impl<T: FromWorld + 'static> SystemParam for Local<'_, T> {
    type State = T;
    type Item<'w, 's> = Local<'s, T>;
    fn init(w: &mut World) -> T {
        T::from_world(w)
    }
    unsafe fn get<'w, 's>(s: &'s mut T, _: *mut World) -> Self::Item<'w, 's> {
        Local(s)
    }
}

unsafe impl<Q: WorldQuery + 'static, F: ReadOnlyWorldQuery + 'static> SystemParam
    for Query<'_, '_, Q, F>
{
    type State = ();
    type Item<'w, 's> = Query<'w, 's, Q, F>;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), w: *mut World) -> Self::Item<'w, 's> {
        Query::new(w)
    }
}

unsafe impl SystemParam for &'_ Archetypes {
    type State = Archetypes;
    type Item<'w, 's> = &'s Archetypes;
    fn init(_: &mut World) -> Archetypes {
        Archetypes::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut Archetypes, w: *mut World) -> Self::Item<'w, 's> {
        *s = (*w).archetypes_and_components().0;
        s
    }
}
unsafe impl SystemParam for &'_ Components {
    type State = Components;
    type Item<'w, 's> = &'s Components;
    fn init(_: &mut World) -> Components {
        Components::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut Components, w: *mut World) -> Self::Item<'w, 's> {
        *s = (*w).archetypes_and_components().1;
        s
    }
}
unsafe impl SystemParam for &'_ World {
    type State = ();
    type Item<'w, 's> = &'w World;
    fn init(_: &mut World) {}
    unsafe fn get<'w, 's>(_: &'s mut (), w: *mut World) -> Self::Item<'w, 's> {
        &*w
    }
}

#[derive(Default)]
pub struct CommandQueue(Vec<Box<dyn FnOnce(&mut World)>>);

pub struct Commands<'w, 's> {
    queue: &'s mut CommandQueue,
    world: *mut World,
    _m: PhantomData<&'w ()>,
}

unsafe impl SystemParam for Commands<'_, '_> {
    type State = CommandQueue;
    type Item<'w, 's> = Commands<'w, 's>;
    fn init(_: &mut World) -> CommandQueue {
        CommandQueue::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut CommandQueue, w: *mut World) -> Self::Item<'w, 's> {
        Commands {
            queue: s,
            world: w,
            _m: PhantomData,
        }
    }
    fn apply(s: &mut CommandQueue, w: &mut World) {
        for c in std::mem::take(&mut s.0) {
            c(w);
        }
    }
}

impl<'w, 's> Commands<'w, 's> {
    pub fn add(&mut self, f: impl FnOnce(&mut World) + 'static) {
        self.queue.0.push(Box::new(f));
    }
    pub fn spawn_empty<'a>(&'a mut self) -> EntityCommands<'w, 's, 'a> {
        let entity = unsafe { (*self.world).alloc() };
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn spawn<'a, B: Bundle>(&'a mut self, b: B) -> EntityCommands<'w, 's, 'a> {
        let mut e = self.spawn_empty();
        e.insert(b);
        e
    }
    pub fn spawn_batch<I>(&mut self, it: I)
    where
        I: IntoIterator,
        I::Item: Bundle,
    {
        for b in it {
            self.spawn(b);
        }
    }
    pub fn entity<'a>(&'a mut self, entity: Entity) -> EntityCommands<'w, 's, 'a> {
        if unsafe { !(*self.world).contains_entity(entity) } {
            panic!("Attempting to create an EntityCommands for entity {entity:?}, which doesn't exist.");
        }
        EntityCommands {
            entity,
            commands: self,
        }
    }
    pub fn get_entity<'a>(&'a mut self, entity: Entity) -> Option<EntityCommands<'w, 's, 'a>> {
        if unsafe { (*self.world).contains_entity(entity) } {
            Some(self.entity(entity))
        } else {
            None
        }
    }
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.add(move |w| w.insert_resource(r));
    }
    pub fn init_resource<R: Resource + FromWorld>(&mut self) {
        self.add(move |w| w.init_resource::<R>());
    }
    pub fn remove_resource<R: Resource>(&mut self) {
        self.add(move |w| {
            w.remove_resource::<R>();
        });
    }
}

pub struct EntityCommands<'w, 's, 'a> {
    entity: Entity,
    commands: &'a mut Commands<'w, 's>,
}

impl<'w, 's, 'a> EntityCommands<'w, 's, 'a> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        let e = self.entity;
        self.commands.add(move |w| match w.get_entity_mut(e) {
            Some(mut e) => {
                e.insert(b);
            }
            None => panic!(
                "error[B0003]: Could not insert a bundle for entity {e:?} because it doesn't exist in this World."
            ),
        });
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        let e = self.entity;
        self.commands.add(move |w| {
            if let Some(mut e) = w.get_entity_mut(e) {
                e.remove::<B>();
            }
        });
        self
    }
    pub fn despawn(&mut self) {
        let e = self.entity;
        self.commands.add(move |w| {
            w.despawn(e);
        });
    }
    pub fn commands(&mut self) -> &mut Commands<'w, 's> {
        self.commands
    }
}

pub trait System: 'static {
    type In;
    type Out;
    fn initialize(&mut self, world: &mut World);
    fn run(&mut self, input: Self::In, world: &mut World) -> Self::Out;
    fn apply_buffers(&mut self, world: &mut World);
    fn type_id(&self) -> TypeId;
    fn name(&self) -> &'static str;
}

pub type BoxedSystem<In = (), Out = ()> = Box<dyn System<In = In, Out = Out>>;

pub trait IntoSystem<In, Out, Params>: Sized {
    type System: System<In = In, Out = Out>;
    fn into_system(this: Self) -> Self::System;
}

pub struct FunctionSystem<F, P: SystemParam, Out> {
    f: F,
    state: Option<P::State>,
    _m: PhantomData<fn() -> Out>,
}

pub trait SystemParamFunction<P: SystemParam, Out>: 'static {
    unsafe fn run(&mut self, state: &mut P::State, world: *mut World) -> Out;
}

impl<F, P, Out> System for FunctionSystem<F, P, Out>
where
    F: SystemParamFunction<P, Out>,
    P: SystemParam + 'static,
    Out: 'static,
{
    type In = ();
    type Out = Out;
    fn initialize(&mut self, world: &mut World) {
        if self.state.is_none() {
            self.state = Some(P::init(world));
        }
    }
    fn run(&mut self, _: (), world: &mut World) -> Out {
        self.initialize(world);
        unsafe { self.f.run(self.state.as_mut().unwrap(), world as *mut World) }
    }
    fn apply_buffers(&mut self, world: &mut World) {
        if let Some(s) = self.state.as_mut() {
            P::apply(s, world);
        }
    }
    fn type_id(&self) -> TypeId {
        TypeId::of::<F>()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<F>()
    }
}

pub struct IsFunctionSystem;

impl<F, P, Out> IntoSystem<(), Out, (IsFunctionSystem, P, Out)> for F
where
    F: SystemParamFunction<P, Out>,
    P: SystemParam + 'static,
    Out: 'static,
{
    type System = FunctionSystem<F, P, Out>;
    fn into_system(f: Self) -> Self::System {
        FunctionSystem {
            f,
            state: None,
            _m: PhantomData,
        }
    }
}

pub struct IsExclusive;
pub struct ExclusiveSystem<F>(F);
impl<F: FnMut(&mut World) + 'static> System for ExclusiveSystem<F> {
    type In = ();
    type Out = ();
    fn initialize(&mut self, _: &mut World) {}
    fn run(&mut self, _: (), world: &mut World) {
        (self.0)(world)
    }
    fn apply_buffers(&mut self, _: &mut World) {}
    fn type_id(&self) -> TypeId {
        TypeId::of::<F>()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<F>()
    }
}
impl<F: FnMut(&mut World) + 'static> IntoSystem<(), (), IsExclusive> for F {
    type System = ExclusiveSystem<F>;
    fn into_system(f: Self) -> Self::System {
        ExclusiveSystem(f)
    }
}

macro_rules! fns {
    ($($p: ident),*) => {
        #[allow(non_snake_case, unused_variables)]
        unsafe impl<$($p: SystemParam),*> SystemParam for ($($p,)*) {
            type State = ($($p::State,)*);
            type Item<'w, 's> = ($($p::Item<'w, 's>,)*);
            fn init(w: &mut World) -> Self::State {
                ($($p::init(w),)*)
            }
            #[allow(clippy::unused_unit)]
            unsafe fn get<'w, 's>(s: &'s mut Self::State, w: *mut World) -> Self::Item<'w, 's> {
                let ($($p,)*) = s;
                ($($p::get($p, w),)*)
            }
            fn apply(s: &mut Self::State, w: &mut World) {
                let ($($p,)*) = s;
                $( $p::apply($p, w); )*
            }
        }
        #[allow(non_snake_case, unused_variables)]
        impl<Out, Func, $($p: SystemParam + 'static),*> SystemParamFunction<($($p,)*), Out> for Func
        where
            Func: 'static,
            for<'a> &'a mut Func:
                FnMut($($p),*) -> Out + FnMut($($p::Item<'_, '_>),*) -> Out,
            Out: 'static,
        {
            unsafe fn run(&mut self, state: &mut <($($p,)*) as SystemParam>::State, world: *mut World) -> Out {
                #[allow(clippy::too_many_arguments)]
                fn call<Out, $($p),*>(mut f: impl FnMut($($p),*) -> Out, $($p: $p),*) -> Out {
                    f($($p),*)
                }
                let ($($p,)*) = <($($p,)*) as SystemParam>::get(state, world);
                call(self, $($p),*)
            }
        }
    };
}
fns!();
fns!(A);
fns!(A, B);
fns!(A, B, C);
fns!(A, B, C, D);
fns!(A, B, C, D, E);
fns!(A, B, C, D, E, F);
fns!(A, B, C, D, E, F, G);
fns!(A, B, C, D, E, F, G, H);
fns!(A, B, C, D, E, F, G, H, I);
fns!(A, B, C, D, E, F, G, H, I, J);
fns!(A, B, C, D, E, F, G, H, I, J, K);
fns!(A, B, C, D, E, F, G, H, I, J, K, L);
fns!(A, B, C, D, E, F, G, H, I, J, K, L, M);
fns!(A, B, C, D, E, F, G, H, I, J, K, L, M, N);
fns!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O);
fns!(A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P);

/// Labels of systems: label types, or the system functions themselves.
pub trait AsSystemLabel<Marker> {
    fn as_system_label(&self) -> SystemLabelId;
}

impl<In, Out, Params, T> AsSystemLabel<(In, Out, Params)> for T
where
    T: IntoSystem<In, Out, Params> + 'static,
{
    fn as_system_label(&self) -> SystemLabelId {
        SystemLabelId::of_system::<T>()
    }
}

impl<T: crate::schedule::SystemLabel + 'static> AsSystemLabel<()> for T {
    fn as_system_label(&self) -> SystemLabelId {
        crate::schedule::SystemLabel::as_label(self)
    }
}
