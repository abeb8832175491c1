use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(H5Type)]
pub fn derive_h5type(input: TokenStream) -> TokenStream {
    let s: syn::ItemStruct = syn::parse(input).unwrap();
    let name = &s.ident;
    let transparent = s
        .attrs
        .iter()
        .any(|a| a.path.is_ident("repr") && a.tokens.to_string().contains("transparent"));
    let (ig, tg, wc) = s.generics.split_for_impl();
    let types: Vec<_> = s.fields.iter().map(|f| &f.ty).collect();
    let body = if transparent {
        let t = types[0];
        quote! { <#t as ::hdf5::H5Type>::type_descriptor() }
    } else {
        quote! { ::hdf5::TypeDescriptor::compound(vec![#(<#types as ::hdf5::H5Type>::type_descriptor()),*], std::mem::size_of::<Self>()) }
    };
    quote! {
        unsafe impl #ig ::hdf5::H5Type for #name #tg #wc {
            fn type_descriptor() -> ::hdf5::TypeDescriptor { #body }
        }
    }
    .into()
}
