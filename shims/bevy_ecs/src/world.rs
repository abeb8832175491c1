use std::any::{Any, TypeId};
use std::collections::BTreeMap;
use std::marker::PhantomData;

use crate::archetype::{Archetype, Archetypes, ComponentId, ComponentInfo, Components};
use crate::bundle::Bundle;
use crate::component::Component;
use crate::entity::Entity;
use crate::query::{Query, ReadOnlyWorldQuery, WorldQuery};
use crate::system::{Mut, Resource};

/// The components of one entity.
#[derive(Default)]
pub struct ComponentMap(pub(crate) BTreeMap<TypeId, (Box<dyn Any>, &'static str)>);

impl ComponentMap {
    pub fn insert<C: Component>(&mut self, c: C) {
        self.0
            .insert(TypeId::of::<C>(), (Box::new(c), std::any::type_name::<C>()));
    }
    pub fn remove<C: Component>(&mut self) -> Option<C> {
        self.0
            .remove(&TypeId::of::<C>())
            .map(|(b, _)| *b.downcast::<C>().unwrap())
    }
    pub fn contains<C: Component>(&self) -> bool {
        self.0.contains_key(&TypeId::of::<C>())
    }
    pub(crate) fn ptr<C: Component>(&mut self) -> Option<*mut C> {
        self.0
            .get_mut(&TypeId::of::<C>())
            .map(|(b, _)| b.downcast_mut::<C>().unwrap() as *mut C)
    }
    pub fn get<C: Component>(&self) -> Option<&C> {
        self.0
            .get(&TypeId::of::<C>())
            .map(|(b, _)| b.downcast_ref::<C>().unwrap())
    }
}

#[derive(Default)]
pub(crate) struct Slot {
    pub generation: u32,
    pub alive: bool,
    pub components: ComponentMap,
}

pub trait FromWorld {
    fn from_world(world: &mut World) -> Self;
}
impl<T: Default> FromWorld for T {
    fn from_world(_: &mut World) -> Self {
        T::default()
    }
}

#[derive(Default)]
pub struct World {
    pub(crate) slots: Vec<Slot>,
    free: Vec<u32>,
    resources: BTreeMap<TypeId, Box<dyn Any>>,
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    pub(crate) fn alloc(&mut self) -> Entity {
        if let Some(index) = self.free.pop() {
            let s = &mut self.slots[index as usize];
            s.alive = true;
            Entity {
                index,
                generation: s.generation,
            }
        } else {
            self.slots.push(Slot {
                generation: 0,
                alive: true,
                components: ComponentMap::default(),
            });
            Entity {
                index: (self.slots.len() - 1) as u32,
                generation: 0,
            }
        }
    }

    pub(crate) fn slot_mut(&mut self, e: Entity) -> Option<&mut Slot> {
        self.slots
            .get_mut(e.index as usize)
            .filter(|s| s.alive && s.generation == e.generation)
    }
    pub(crate) fn slot(&self, e: Entity) -> Option<&Slot> {
        self.slots
            .get(e.index as usize)
            .filter(|s| s.alive && s.generation == e.generation)
    }

    pub fn spawn<B: Bundle>(&mut self, b: B) -> EntityMut<'_> {
        let e = self.alloc();
        b.insert_into(&mut self.slots[e.index as usize].components);
        EntityMut {
            world: self,
            entity: e,
        }
    }
    pub fn spawn_empty(&mut self) -> EntityMut<'_> {
        let e = self.alloc();
        EntityMut {
            world: self,
            entity: e,
        }
    }
    pub fn spawn_batch<B: Bundle>(&mut self, it: impl IntoIterator<Item = B>) -> Vec<Entity> {
        it.into_iter().map(|b| self.spawn(b).id()).collect()
    }
    pub fn despawn(&mut self, e: Entity) -> bool {
        match self.slot_mut(e) {
            Some(s) => {
                s.alive = false;
                s.generation += 1;
                s.components = ComponentMap::default();
                self.free.push(e.index);
                true
            }
            None => false,
        }
    }
    pub fn contains_entity(&self, e: Entity) -> bool {
        self.slot(e).is_some()
    }
    pub fn get_entity_mut(&mut self, e: Entity) -> Option<EntityMut<'_>> {
        if self.slot(e).is_some() {
            Some(EntityMut {
                world: self,
                entity: e,
            })
        } else {
            None
        }
    }
    pub fn entity_mut(&mut self, e: Entity) -> EntityMut<'_> {
        self.get_entity_mut(e)
            .unwrap_or_else(|| panic!("Entity {e:?} does not exist"))
    }
    pub fn entity(&self, e: Entity) -> EntityRef<'_> {
        self.get_entity(e)
            .unwrap_or_else(|| panic!("Entity {e:?} does not exist"))
    }
    pub fn get_entity(&self, e: Entity) -> Option<EntityRef<'_>> {
        self.slot(e).map(|_| EntityRef {
            world: self,
            entity: e,
        })
    }
    pub fn get<C: Component>(&self, e: Entity) -> Option<&C> {
        self.slot(e).and_then(|s| s.components.get::<C>())
    }
    pub fn get_mut<C: Component>(&mut self, e: Entity) -> Option<Mut<'_, C>> {
        self.slot_mut(e)
            .and_then(|s| s.components.ptr::<C>())
            .map(|p| Mut {
                value: unsafe { &mut *p },
            })
    }

    // Send and non-send resources share one store, as in bevy 0.9.
    pub fn insert_resource<R: Resource>(&mut self, r: R) {
        self.resources.insert(TypeId::of::<R>(), Box::new(r));
    }
    pub fn insert_non_send_resource<R: 'static>(&mut self, r: R) {
        self.resources.insert(TypeId::of::<R>(), Box::new(r));
    }
    pub fn init_resource<R: Resource + FromWorld>(&mut self) {
        if !self.resources.contains_key(&TypeId::of::<R>()) {
            let r = R::from_world(self);
            self.insert_resource(r);
        }
    }
    pub fn remove_resource<R: Resource>(&mut self) -> Option<R> {
        self.resources
            .remove(&TypeId::of::<R>())
            .map(|b| *b.downcast::<R>().unwrap())
    }
    pub fn remove_non_send_resource<R: 'static>(&mut self) -> Option<R> {
        self.resources
            .remove(&TypeId::of::<R>())
            .map(|b| *b.downcast::<R>().unwrap())
    }
    pub fn contains_resource<R: 'static>(&self) -> bool {
        self.resources.contains_key(&TypeId::of::<R>())
    }
    pub fn get_resource<R: 'static>(&self) -> Option<&R> {
        self.resources
            .get(&TypeId::of::<R>())
            .map(|b| b.downcast_ref::<R>().unwrap())
    }
    pub fn get_resource_mut<R: 'static>(&mut self) -> Option<Mut<'_, R>> {
        self.resources.get_mut(&TypeId::of::<R>()).map(|b| Mut {
            value: b.downcast_mut::<R>().unwrap(),
        })
    }
    pub fn resource<R: 'static>(&self) -> &R {
        self.get_resource::<R>().unwrap_or_else(|| {
            panic!(
                "Requested resource {} does not exist in the `World`.",
                std::any::type_name::<R>()
            )
        })
    }
    pub fn resource_mut<R: 'static>(&mut self) -> Mut<'_, R> {
        self.get_resource_mut::<R>().unwrap_or_else(|| {
            panic!(
                "Requested resource {} does not exist in the `World`.",
                std::any::type_name::<R>()
            )
        })
    }
    pub fn get_non_send_resource<R: 'static>(&self) -> Option<&R> {
        self.get_resource::<R>()
    }
    pub fn get_non_send_resource_mut<R: 'static>(&mut self) -> Option<Mut<'_, R>> {
        self.get_resource_mut::<R>()
    }
    pub fn non_send_resource<R: 'static>(&self) -> &R {
        self.resource::<R>()
    }
    pub fn non_send_resource_mut<R: 'static>(&mut self) -> Mut<'_, R> {
        self.resource_mut::<R>()
    }
    pub fn get_resource_or_insert_with<R: Resource>(
        &mut self,
        f: impl FnOnce() -> R,
    ) -> Mut<'_, R> {
        if !self.contains_resource::<R>() {
            self.insert_resource(f());
        }
        self.resource_mut::<R>()
    }
    pub fn resource_scope<R: Resource, U>(
        &mut self,
        f: impl FnOnce(&mut World, Mut<R>) -> U,
    ) -> U {
        let mut r = self.remove_resource::<R>().unwrap();
        let u = f(self, Mut { value: &mut r });
        self.insert_resource(r);
        u
    }
    pub(crate) fn resource_ptr<R: 'static>(&mut self) -> Option<*mut R> {
        self.resources
            .get_mut(&TypeId::of::<R>())
            .map(|b| b.downcast_mut::<R>().unwrap() as *mut R)
    }

    pub fn query<Q: WorldQuery>(&mut self) -> QueryState<Q, ()> {
        QueryState(PhantomData)
    }
    pub fn query_filtered<Q: WorldQuery, F: ReadOnlyWorldQuery>(&mut self) -> QueryState<Q, F> {
        QueryState(PhantomData)
    }

    pub fn archetypes_and_components(&self) -> (Archetypes, Components) {
        let mut map: BTreeMap<Vec<TypeId>, usize> = BTreeMap::new();
        let mut comps = Components::default();
        for s in self.slots.iter().filter(|s| s.alive) {
            let key: Vec<_> = s.components.0.keys().copied().collect();
            *map.entry(key).or_default() += 1;
            for (k, (_, name)) in s.components.0.iter() {
                comps.0.insert(*k, ComponentInfo { name });
            }
        }
        let archs = map
            .into_iter()
            .map(|(k, len)| Archetype {
                components: k.into_iter().map(ComponentId).collect(),
                len,
            })
            .collect();
        (Archetypes(archs), comps)
    }
}

pub struct QueryState<Q, F = ()>(PhantomData<(Q, F)>);

impl<Q: WorldQuery, F: ReadOnlyWorldQuery> QueryState<Q, F> {
    pub fn iter<'w>(
        &mut self,
        world: &'w World,
    ) -> std::vec::IntoIter<<Q::ReadOnly as WorldQuery>::Item<'w>> {
        let q: Query<'w, '_, Q, F> = Query::new(world as *const World as *mut World);
        q.collect_ro().into_iter()
    }
    pub fn iter_mut<'w>(&mut self, world: &'w mut World) -> std::vec::IntoIter<Q::Item<'w>> {
        let q: Query<'w, '_, Q, F> = Query::new(world as *mut World);
        q.collect_rw().into_iter()
    }
    pub fn single<'w>(&mut self, world: &'w World) -> <Q::ReadOnly as WorldQuery>::Item<'w> {
        let mut it = self.iter(world);
        let x = it.next().expect("No entities");
        assert!(it.next().is_none(), "Multiple entities");
        x
    }
}

pub struct EntityRef<'w> {
    world: &'w World,
    entity: Entity,
}
impl<'w> EntityRef<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn get<C: Component>(&self) -> Option<&'w C> {
        self.world.get(self.entity)
    }
    pub fn contains<C: Component>(&self) -> bool {
        self.get::<C>().is_some()
    }
}

pub struct EntityMut<'w> {
    world: &'w mut World,
    entity: Entity,
}

impl<'w> EntityMut<'w> {
    pub fn id(&self) -> Entity {
        self.entity
    }
    pub fn insert<B: Bundle>(&mut self, b: B) -> &mut Self {
        b.insert_into(&mut self.world.slot_mut(self.entity).unwrap().components);
        self
    }
    pub fn remove<B: Bundle>(&mut self) -> &mut Self {
        B::remove_from(&mut self.world.slot_mut(self.entity).unwrap().components);
        self
    }
    pub fn despawn(self) {
        self.world.despawn(self.entity);
    }
    pub fn get<C: Component>(&self) -> Option<&C> {
        self.world.get(self.entity)
    }
    pub fn get_mut<C: Component>(&mut self) -> Option<Mut<'_, C>> {
        self.world.get_mut(self.entity)
    }
    pub fn contains<C: Component>(&self) -> bool {
        self.get::<C>().is_some()
    }
}
