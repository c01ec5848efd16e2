//! `#[derive(H5Type)]` for the stand-in hdf5 crate: a struct is stored as the
//! concatenation of its fields' 64-bit words.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

#[proc_macro_derive(H5Type)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (imp, ty, wh) = input.generics.split_for_impl();
    let fields = match &input.data {
        Data::Struct(s) => &s.fields,
        _ => panic!("H5Type can only be derived for structs in the stand-in"),
    };
    let tys: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
    let accessors: Vec<_> = fields
        .iter()
        .enumerate()
        .map(|(i, f)| match &f.ident {
            Some(id) => quote!(#id),
            None => {
                let idx = Index::from(i);
                quote!(#idx)
            }
        })
        .collect();
    let vars: Vec<_> = (0..tys.len())
        .map(|i| syn::Ident::new(&format!("f{i}"), proc_macro2::Span::call_site()))
        .collect();
    let build = match fields {
        Fields::Named(_) => quote!(Self { #(#accessors: #vars),* }),
        Fields::Unnamed(_) => quote!(Self(#(#vars),*)),
        Fields::Unit => quote!(Self),
    };
    let kind = match tys.first() {
        Some(t) => quote!(<#t as ::hdf5::H5Type>::kind()),
        None => quote!(::hdf5::Kind::U64),
    };
    quote! {
        unsafe impl #imp ::hdf5::H5Type for #name #ty #wh {
            fn h5_width() -> usize { 0 #(+ <#tys as ::hdf5::H5Type>::h5_width())* }
            fn to_words(&self, out: &mut ::std::vec::Vec<u64>) {
                #( ::hdf5::H5Type::to_words(&self.#accessors, out); )*
            }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn from_words(words: &[u64]) -> Self {
                let mut pos = 0usize;
                #(
                    let w = <#tys as ::hdf5::H5Type>::h5_width();
                    let #vars = <#tys as ::hdf5::H5Type>::from_words(&words[pos..pos + w]);
                    pos += w;
                )*
                #build
            }
            fn kind() -> ::hdf5::Kind { #kind }
        }
    }
    .into()
}
