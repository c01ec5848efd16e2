use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn simple(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let mut ast: DeriveInput = parse(input).unwrap();
    ast.generics
        .make_where_clause()
        .predicates
        .push(parse_quote! { Self: Send + Sync + 'static });
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    quote! { impl #ig #tr for #name #tg #wc {} }.into()
}

#[proc_macro_derive(Component)]
pub fn component(input: TokenStream) -> TokenStream {
    simple(input, quote!(::bevy_ecs::component::Component))
}

#[proc_macro_derive(Resource)]
pub fn resource(input: TokenStream) -> TokenStream {
    simple(input, quote!(::bevy_ecs::system::Resource))
}

#[proc_macro_derive(Bundle)]
pub fn bundle(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = parse(input).unwrap();
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let fields: Vec<_> = match &ast.data {
        Data::Struct(s) => s.fields.iter().map(|f| f.ident.clone().unwrap()).collect(),
        _ => panic!("Bundle only for structs"),
    };
    quote! {
        impl #ig ::bevy_ecs::bundle::Bundle for #name #tg #wc {
            fn insert_into(self, world: &mut ::bevy_ecs::world::World, e: ::bevy_ecs::entity::Entity) {
                #( ::bevy_ecs::bundle::Bundle::insert_into(self.#fields, world, e); )*
            }
        }
    }
    .into()
}

fn label(input: TokenStream, tr: proc_macro2::TokenStream) -> TokenStream {
    let ast: DeriveInput = parse(input).unwrap();
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let body = match &ast.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let s = id.to_string();
                quote! { Self::#id { .. } => #s }
            });
            if e.variants.is_empty() {
                quote! { "" }
            } else {
                quote! { match self { #(#arms),* } }
            }
        }
        _ => {
            let s = name.to_string();
            quote! { #s }
        }
    };
    quote! {
        impl #ig #tr for #name #tg #wc {
            fn as_str(&self) -> &'static str { #body }
        }
    }
    .into()
}

#[proc_macro_derive(StageLabel)]
pub fn stage_label(input: TokenStream) -> TokenStream {
    label(input, quote!(::bevy_ecs::schedule::StageLabel))
}

#[proc_macro_derive(SystemLabel)]
pub fn system_label(input: TokenStream) -> TokenStream {
    label(input, quote!(::bevy_ecs::schedule::SystemLabel))
}
