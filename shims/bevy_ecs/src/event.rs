use std::marker::PhantomData;

use crate::system::{ResMut, Resource, SystemParam};
use crate::world::World;

pub trait Event: Send + Sync + 'static {}
impl<T: Send + Sync + 'static> Event for T {}

/// Double buffered events, as in bevy.
pub struct Events<T> {
    a: Vec<T>,
    b: Vec<T>,
    start_a: usize,
    start_b: usize,
    count: usize,
}
impl<T> Default for Events<T> {
    fn default() -> Self {
        Self {
            a: vec![],
            b: vec![],
            start_a: 0,
            start_b: 0,
            count: 0,
        }
    }
}
impl<T: 'static> Resource for Events<T> {}

impl<T: 'static> Events<T> {
    pub fn send(&mut self, t: T) {
        self.b.push(t);
        self.count += 1;
    }
    pub fn update(&mut self) {
        self.a = std::mem::take(&mut self.b);
        self.start_a = self.start_b;
        self.start_b = self.count;
    }
    pub fn update_system(mut events: ResMut<Self>) {
        events.update();
    }
    pub fn is_empty(&self) -> bool {
        self.a.is_empty() && self.b.is_empty()
    }
    pub fn len(&self) -> usize {
        self.a.len() + self.b.len()
    }
    fn unread(&self, since: usize) -> impl Iterator<Item = &T> {
        let sa = since.saturating_sub(self.start_a).min(self.a.len());
        let sb = since.saturating_sub(self.start_b).min(self.b.len());
        self.a[sa..].iter().chain(self.b[sb..].iter())
    }
    pub fn get_reader(&self) -> ManualEventReader<T> {
        ManualEventReader::default()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<T> {
        self.start_a = self.count;
        self.start_b = self.count;
        let mut v = std::mem::take(&mut self.a);
        v.append(&mut self.b);
        v.into_iter()
    }
}

pub struct ManualEventReader<T> {
    last: usize,
    _m: PhantomData<fn() -> T>,
}
impl<T> Default for ManualEventReader<T> {
    fn default() -> Self {
        Self {
            last: 0,
            _m: PhantomData,
        }
    }
}
impl<T: 'static> ManualEventReader<T> {
    pub fn iter<'a>(&mut self, events: &'a Events<T>) -> std::vec::IntoIter<&'a T> {
        let v: Vec<&'a T> = events.unread(self.last).collect();
        self.last = events.count;
        v.into_iter()
    }
    pub fn len(&self, events: &Events<T>) -> usize {
        events.unread(self.last).count()
    }
    pub fn is_empty(&self, events: &Events<T>) -> bool {
        self.len(events) == 0
    }
}

pub struct EventReader<'w, 's, T: 'static> {
    state: &'s mut ManualEventReader<T>,
    events: &'w Events<T>,
}
impl<'w, 's, T: 'static> EventReader<'w, 's, T> {
    pub fn iter(&mut self) -> std::vec::IntoIter<&T> {
        self.state.iter(self.events)
    }
    pub fn len(&self) -> usize {
        self.state.len(self.events)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        let _ = self.iter();
    }
}
unsafe impl<T: Send + Sync + 'static> SystemParam for EventReader<'_, '_, T> {
    type State = ManualEventReader<T>;
    type Item<'w, 's> = EventReader<'w, 's, T>;
    fn init(_: &mut World) -> Self::State {
        ManualEventReader::default()
    }
    unsafe fn get<'w, 's>(s: &'s mut Self::State, w: *mut World) -> Self::Item<'w, 's> {
        EventReader {
            state: s,
            events: crate::system::res_ref::<Events<T>>(w),
        }
    }
}

pub struct EventWriter<'w, 's, T: 'static> {
    events: &'w mut Events<T>,
    _m: PhantomData<&'s ()>,
}
impl<'w, 's, T: 'static> EventWriter<'w, 's, T> {
    pub fn send(&mut self, t: T) {
        self.events.send(t)
    }
    pub fn send_batch(&mut self, it: impl Iterator<Item = T>) {
        it.for_each(|t| self.events.send(t))
    }
    pub fn send_default(&mut self)
    where
        T: Default,
    {
        self.events.send(T::default())
    }
}
unsafe impl<T: Send + Sync + 'static> SystemParam for EventWriter<'_, '_, T> {
    type State = ();
    type Item<'w, 's> = EventWriter<'w, 's, T>;
    fn init(_: &mut World) -> Self::State {}
    unsafe fn get<'w, 's>(_: &'s mut Self::State, w: *mut World) -> Self::Item<'w, 's> {
        EventWriter {
            events: crate::system::res_mut::<Events<T>>(w),
            _m: PhantomData,
        }
    }
}
