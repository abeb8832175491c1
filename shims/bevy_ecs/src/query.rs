use std::marker::PhantomData;

use crate::component::Component;
use crate::entity::Entity;
use crate::system::Mut;
use crate::world::World;

/// # Safety
/// `fetch` hands out references into the world for the lifetime 'w.
pub unsafe trait WorldQuery {
    type Item<'w>;
    type ReadOnly: ReadOnlyWorldQuery;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>>;
}

pub unsafe trait ReadOnlyWorldQuery: WorldQuery {}

pub type QueryItem<'w, Q> = <Q as WorldQuery>::Item<'w>;

unsafe fn ent(world: *mut World, index: usize) -> Entity {
    Entity {
        index: index as u32,
        generation: (&(*world).slots)[index].generation,
    }
}

unsafe impl WorldQuery for Entity {
    type Item<'w> = Entity;
    type ReadOnly = Self;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>> {
        Some(ent(world, index))
    }
}
unsafe impl ReadOnlyWorldQuery for Entity {}

unsafe impl<'a, T: Component> WorldQuery for &'a T {
    type Item<'w> = &'w T;
    type ReadOnly = &'a T;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<&'w T> {
        (&mut (*world).slots)[index]
            .components
            .ptr::<T>()
            .map(|p| &*p)
    }
}
unsafe impl<'a, T: Component> ReadOnlyWorldQuery for &'a T {}

unsafe impl<'a, T: Component> WorldQuery for &'a mut T {
    type Item<'w> = Mut<'w, T>;
    type ReadOnly = &'a T;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Mut<'w, T>> {
        (&mut (*world).slots)[index]
            .components
            .ptr::<T>()
            .map(|p| Mut { value: &mut *p })
    }
}

unsafe impl<Q: WorldQuery> WorldQuery for Option<Q> {
    type Item<'w> = Option<Q::Item<'w>>;
    type ReadOnly = Option<Q::ReadOnly>;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Option<Q::Item<'w>>> {
        Some(Q::fetch(world, index))
    }
}
unsafe impl<Q: ReadOnlyWorldQuery> ReadOnlyWorldQuery for Option<Q> {}

pub struct With<T>(PhantomData<T>);
pub struct Without<T>(PhantomData<T>);
pub struct Or<T>(PhantomData<T>);

unsafe impl<T: Component> WorldQuery for With<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>> {
        (&(*world).slots)[index]
            .components
            .contains::<T>()
            .then_some(())
    }
}
unsafe impl<T: Component> ReadOnlyWorldQuery for With<T> {}
unsafe impl<T: Component> WorldQuery for Without<T> {
    type Item<'w> = ();
    type ReadOnly = Self;
    unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>> {
        (!(&(*world).slots)[index].components.contains::<T>()).then_some(())
    }
}
unsafe impl<T: Component> ReadOnlyWorldQuery for Without<T> {}

macro_rules! tuple {
    ($($t: ident),*) => {
        #[allow(non_snake_case, unused_variables, clippy::unused_unit)]
        unsafe impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
            type Item<'w> = ($($t::Item<'w>,)*);
            type ReadOnly = ($($t::ReadOnly,)*);
            unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>> {
                Some(($($t::fetch(world, index)?,)*))
            }
        }
        unsafe impl<$($t: ReadOnlyWorldQuery),*> ReadOnlyWorldQuery for ($($t,)*) {}
        unsafe impl<$($t: ReadOnlyWorldQuery),*> WorldQuery for Or<($($t,)*)> {
            type Item<'w> = ();
            type ReadOnly = Self;
            #[allow(unused_variables)]
            unsafe fn fetch<'w>(world: *mut World, index: usize) -> Option<Self::Item<'w>> {
                (false $(|| $t::fetch(world, index).is_some())*).then_some(())
            }
        }
        unsafe impl<$($t: ReadOnlyWorldQuery),*> ReadOnlyWorldQuery for Or<($($t,)*)> {}
    };
}
tuple!();
tuple!(A);
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);
tuple!(A, B, C, D, E, F);
tuple!(A, B, C, D, E, F, G);
tuple!(A, B, C, D, E, F, G, H);
tuple!(A, B, C, D, E, F, G, H, I);
tuple!(A, B, C, D, E, F, G, H, I, J);

#[derive(Debug)]
pub enum QueryEntityError {
    QueryDoesNotMatch(Entity),
    NoSuchEntity(Entity),
}
#[derive(Debug)]
pub enum QuerySingleError {
    NoEntities,
    MultipleEntities,
}

pub struct Query<'w, 's, Q, F = ()> {
    world: *mut World,
    _m: PhantomData<(&'w (), &'s (), fn() -> (Q, F))>,
}

impl<'w, 's, Q: WorldQuery, F: ReadOnlyWorldQuery> Query<'w, 's, Q, F> {
    pub(crate) fn new(world: *mut World) -> Self {
        Self {
            world,
            _m: PhantomData,
        }
    }

    fn matching(&self) -> Vec<usize> {
        unsafe {
            let n = (&(*self.world).slots).len();
            (0..n)
                .filter(|i| {
                    (&(*self.world).slots)[*i].alive && F::fetch(self.world, *i).is_some()
                })
                .collect()
        }
    }
    pub(crate) fn collect_ro<'a>(&self) -> Vec<<Q::ReadOnly as WorldQuery>::Item<'a>> {
        self.matching()
            .into_iter()
            .filter_map(|i| unsafe { <Q::ReadOnly as WorldQuery>::fetch(self.world, i) })
            .collect()
    }
    pub(crate) fn collect_rw<'a>(&self) -> Vec<Q::Item<'a>> {
        self.matching()
            .into_iter()
            .filter_map(|i| unsafe { Q::fetch(self.world, i) })
            .collect()
    }

    pub fn iter<'a>(&'a self) -> std::vec::IntoIter<<Q::ReadOnly as WorldQuery>::Item<'a>> {
        self.collect_ro().into_iter()
    }
    pub fn iter_mut<'a>(&'a mut self) -> std::vec::IntoIter<Q::Item<'a>> {
        self.collect_rw().into_iter()
    }
    pub fn for_each<'a>(&'a self, f: impl FnMut(<Q::ReadOnly as WorldQuery>::Item<'a>)) {
        self.iter().for_each(f)
    }
    pub fn for_each_mut<'a>(&'a mut self, f: impl FnMut(Q::Item<'a>)) {
        self.iter_mut().for_each(f)
    }

    fn index_of(&self, e: Entity) -> Result<usize, QueryEntityError> {
        unsafe {
            if (*self.world).slot(e).is_none() {
                return Err(QueryEntityError::NoSuchEntity(e));
            }
            F::fetch(self.world, e.index as usize)
                .map(|_| e.index as usize)
                .ok_or(QueryEntityError::QueryDoesNotMatch(e))
        }
    }
    pub fn get<'a>(
        &'a self,
        e: Entity,
    ) -> Result<<Q::ReadOnly as WorldQuery>::Item<'a>, QueryEntityError> {
        let i = self.index_of(e)?;
        unsafe {
            <Q::ReadOnly as WorldQuery>::fetch(self.world, i)
                .ok_or(QueryEntityError::QueryDoesNotMatch(e))
        }
    }
    pub fn get_mut<'a>(&'a mut self, e: Entity) -> Result<Q::Item<'a>, QueryEntityError> {
        let i = self.index_of(e)?;
        unsafe { Q::fetch(self.world, i).ok_or(QueryEntityError::QueryDoesNotMatch(e)) }
    }
    pub fn contains(&self, e: Entity) -> bool {
        self.get(e).is_ok()
    }
    pub fn get_single<'a>(
        &'a self,
    ) -> Result<<Q::ReadOnly as WorldQuery>::Item<'a>, QuerySingleError> {
        let mut it = self.iter();
        match (it.next(), it.next()) {
            (None, _) => Err(QuerySingleError::NoEntities),
            (Some(x), None) => Ok(x),
            _ => Err(QuerySingleError::MultipleEntities),
        }
    }
    pub fn single<'a>(&'a self) -> <Q::ReadOnly as WorldQuery>::Item<'a> {
        self.get_single().unwrap()
    }
    pub fn single_mut<'a>(&'a mut self) -> Q::Item<'a> {
        let mut it = self.iter_mut();
        let x = it.next().expect("NoEntities");
        assert!(it.next().is_none(), "MultipleEntities");
        x
    }
    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
}

impl<'w, 's, Q: WorldQuery, F: ReadOnlyWorldQuery> IntoIterator for &'w Query<'_, 's, Q, F> {
    type Item = <Q::ReadOnly as WorldQuery>::Item<'w>;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'w, 's, Q: WorldQuery, F: ReadOnlyWorldQuery> IntoIterator for &'w mut Query<'_, 's, Q, F> {
    type Item = Q::Item<'w>;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
