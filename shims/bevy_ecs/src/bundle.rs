use crate::component::Component;
use crate::world::ComponentMap;
pub use bevy_ecs_macros::Bundle;

pub trait Bundle: Send + Sync + 'static {
    fn insert_into(self, e: &mut ComponentMap);
    fn remove_from(e: &mut ComponentMap);
}

impl<C: Component> Bundle for C {
    fn insert_into(self, e: &mut ComponentMap) {
        e.insert(self);
    }
    fn remove_from(e: &mut ComponentMap) {
        e.remove::<C>();
    }
}

macro_rules! tuple {
    ($($t: ident),*) => {
        #[allow(non_snake_case, unused_variables)]
        impl<$($t: Bundle),*> Bundle for ($($t,)*) {
            fn insert_into(self, e: &mut ComponentMap) {
                let ($($t,)*) = self;
                $( $t.insert_into(e); )*
            }
            fn remove_from(e: &mut ComponentMap) {
                $( $t::remove_from(e); )*
            }
        }
    };
}
tuple!();
tuple!(A);
tuple!(A, B);
tuple!(A, B, C);
tuple!(A, B, C, D);
tuple!(A, B, C, D, E);
tuple!(A, B, C, D, E, F);
tuple!(A, B, C, D, E, F, G);
tuple!(A, B, C, D, E, F, G, H);
tuple!(A, B, C, D, E, F, G, H, I);
tuple!(A, B, C, D, E, F, G, H, I, J);
tuple!(A, B, C, D, E, F, G, H, I, J, K);
tuple!(A, B, C, D, E, F, G, H, I, J, K, L);
