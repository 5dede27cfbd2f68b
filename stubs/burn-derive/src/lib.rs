//! `#[derive(Module)]`: Clone + parameter loading by field path.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

#[proc_macro_derive(Module, attributes(module))]
pub fn module(ts: TokenStream) -> TokenStream {
    let d = parse_macro_input!(ts as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let b = d.generics.type_params().next().expect("Module needs a backend parameter").ident.clone();
    let Data::Struct(DataStruct { fields: Fields::Named(f), .. }) = &d.data else { panic!("struct expected") };
    let n: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
    let s: Vec<_> = n.iter().map(|i| i.to_string()).collect();
    quote! {
        impl #ig ::core::clone::Clone for #name #tg #wc {
            fn clone(&self) -> Self { Self { #(#n: self.#n.clone(),)* } }
        }
        impl #ig burn::module::Module<#b> for #name #tg #wc {
            fn __load(&mut self, path: &str, src: &mut dyn burn::module::Source) {
                #( burn::module::Module::<#b>::__load(&mut self.#n, &burn::module::join(path, #s), src); )*
            }
            fn num_params(&self) -> usize {
                let mut n = 0usize;
                #( n += burn::module::Module::<#b>::num_params(&self.#n); )*
                n
            }
        }
    }
    .into()
}
