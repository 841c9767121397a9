use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_attribute]
pub fn bitflags(_a: TokenStream, item: TokenStream) -> TokenStream {
    let e: syn::ItemEnum = syn::parse(item).unwrap();
    let n = &e.ident;
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        #e
        impl ::enumflags2::BitFlag for #n {
            const ALL_BITS: u8 = 0 #( | (#n::#vs as u8) )*;
            const EACH: &'static [(u8, Self)] = &[ #( (#n::#vs as u8, #n::#vs) ),* ];
            fn bit(self) -> u8 { self as u8 }
        }
        impl ::core::ops::BitOr for #n { type Output = ::enumflags2::BitFlags<#n>; fn bitor(self, o: Self) -> Self::Output { ::enumflags2::BitFlags::from(self) | o } }
        impl ::core::ops::BitOr<::enumflags2::BitFlags<#n>> for #n { type Output = ::enumflags2::BitFlags<#n>; fn bitor(self, o: ::enumflags2::BitFlags<#n>) -> Self::Output { o | self } }
        impl ::core::ops::BitAnd for #n { type Output = ::enumflags2::BitFlags<#n>; fn bitand(self, o: Self) -> Self::Output { ::enumflags2::BitFlags::from(self) & o } }
        impl ::core::ops::Not for #n { type Output = ::enumflags2::BitFlags<#n>; fn not(self) -> Self::Output { !::enumflags2::BitFlags::from(self) } }
    }.into()
}
