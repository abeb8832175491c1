//! Derives for the minimal bevy_ecs stand-in used to build subsweep offline.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn static_bounds(ast: &mut DeriveInput, bound: proc_macro2::TokenStream) {
    let params: Vec<_> = ast
        .generics
        .type_params()
        .map(|p| p.ident.clone())
        .collect();
    let wc = ast.generics.make_where_clause();
    for p in params {
        wc.predicates.push(syn::parse_quote!(#p: #bound));
    }
}

#[proc_macro_derive(Resource)]
pub fn resource(i: TokenStream) -> TokenStream {
    let mut ast = parse_macro_input!(i as DeriveInput);
    static_bounds(&mut ast, quote!('static));
    let n = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    quote!(impl #ig bevy_ecs::system::Resource for #n #tg #wc {}).into()
}

#[proc_macro_derive(Component, attributes(component))]
pub fn component(i: TokenStream) -> TokenStream {
    let mut ast = parse_macro_input!(i as DeriveInput);
    static_bounds(&mut ast, quote!('static));
    let n = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    quote!(impl #ig bevy_ecs::component::Component for #n #tg #wc {}).into()
}

#[proc_macro_derive(Bundle, attributes(bundle))]
pub fn bundle(i: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(i as DeriveInput);
    let n = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let fields: Vec<_> = match &ast.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => f.named.iter().collect(),
            Fields::Unnamed(f) => f.unnamed.iter().collect(),
            Fields::Unit => vec![],
        },
        _ => panic!("Bundle derive on non-struct"),
    };
    let idents: Vec<syn::Member> = fields
        .iter()
        .enumerate()
        .map(|(i, f)| match &f.ident {
            Some(id) => syn::Member::Named(id.clone()),
            None => syn::Member::Unnamed(syn::Index::from(i)),
        })
        .collect();
    let tys: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
    quote!(
        impl #ig bevy_ecs::bundle::Bundle for #n #tg #wc {
            fn insert_into(self, e: &mut bevy_ecs::world::ComponentMap) {
                #( bevy_ecs::bundle::Bundle::insert_into(self.#idents, e); )*
            }
            fn remove_from(e: &mut bevy_ecs::world::ComponentMap) {
                #( <#tys as bevy_ecs::bundle::Bundle>::remove_from(e); )*
            }
        }
    )
    .into()
}

fn label(i: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let ast = parse_macro_input!(i as DeriveInput);
    let n = &ast.ident;
    let name = n.to_string();
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let body = match &ast.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let id = &v.ident;
                let s = v.ident.to_string();
                let i = i as u32;
                let pat = match &v.fields {
                    Fields::Unit => quote!(Self::#id),
                    Fields::Named(_) => quote!(Self::#id { .. }),
                    Fields::Unnamed(_) => quote!(Self::#id(..)),
                };
                quote!(#pat => (#i, #s))
            });
            quote!(match self { #(#arms),* })
        }
        _ => quote!((0u32, #name)),
    };
    quote!(impl #ig #tr for #n #tg #wc {
        fn label_data(&self) -> (u32, &'static str) { #body }
    })
    .into()
}

#[proc_macro_derive(StageLabel)]
pub fn stage_label(i: TokenStream) -> TokenStream {
    label(i, quote!(bevy_ecs::schedule::StageLabel))
}

#[proc_macro_derive(SystemLabel)]
pub fn system_label(i: TokenStream) -> TokenStream {
    label(i, quote!(bevy_ecs::schedule::SystemLabel))
}
