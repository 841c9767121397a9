//! Development only (running the repository's own tests under the stand-ins).
use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};
struct A { vis: syn::Visibility, name: syn::Ident, ty: Option<syn::Type> }
impl Parse for A {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let vis = i.parse()?;
        let name = i.parse()?;
        let ty = if i.peek(syn::Token![:]) { let _: syn::Token![:] = i.parse()?; Some(i.parse()?) } else { None };
        Ok(A { vis, name, ty })
    }
}
#[proc_macro_attribute]
pub fn tested_fixture(a: TokenStream, item: TokenStream) -> TokenStream {
    let a: A = syn::parse(a).unwrap();
    let f: syn::ItemFn = syn::parse(item).unwrap();
    let (vis, name, fname) = (&a.vis, &a.name, &f.sig.ident);
    let (ty, is_res): (syn::Type, bool) = match (&a.ty, &f.sig.output) {
        (Some(t), syn::ReturnType::Type(_, o)) => (t.clone(), !same(o, t)),
        (None, syn::ReturnType::Type(_, o)) => match &**o {
            syn::Type::Path(p) if p.path.segments.last().unwrap().ident == "Result" => {
                let syn::PathArguments::AngleBracketed(g) = &p.path.segments.last().unwrap().arguments else { panic!() };
                let syn::GenericArgument::Type(t) = g.args.first().unwrap() else { panic!() };
                (t.clone(), true)
            }
            o => (o.clone(), false),
        },
        _ => (syn::parse_quote!(()), false),
    };
    let get = if is_res { quote!(#fname().unwrap()) } else { quote!(#fname()) };
    quote! {
        #f
        #vis static #name: ::once_cell::sync::Lazy<&'static #ty> = ::once_cell::sync::Lazy::new(|| Box::leak(Box::new(#get)));
        const _: () = { #[test] fn fixture_test() { ::once_cell::sync::Lazy::force(&#name); } };
    }.into()
}
fn same(a: &syn::Type, b: &syn::Type) -> bool { quote!(#a).to_string() == quote!(#b).to_string() }
