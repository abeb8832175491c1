use std::any::TypeId;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ComponentId(pub TypeId);

pub struct Archetype {
    pub(crate) components: Vec<ComponentId>,
    pub(crate) len: usize,
}

impl Archetype {
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn components(&self) -> impl Iterator<Item = ComponentId> + '_ {
        self.components.iter().copied()
    }
}

#[derive(Default)]
pub struct Archetypes(pub(crate) Vec<Archetype>);

impl Archetypes {
    pub fn iter(&self) -> impl Iterator<Item = &Archetype> {
        self.0.iter()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub struct ComponentInfo {
    pub(crate) name: &'static str,
}

impl ComponentInfo {
    pub fn name(&self) -> &str {
        self.name
    }
}

#[derive(Default)]
pub struct Components(pub(crate) BTreeMap<TypeId, ComponentInfo>);

impl Components {
    pub fn get_info(&self, id: ComponentId) -> Option<&ComponentInfo> {
        self.0.get(&id.0)
    }
}
