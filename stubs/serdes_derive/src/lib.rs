use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let Data::Struct(st) = &input.data else {
        return syn::Error::new_spanned(name, "only structs").to_compile_error().into();
    };
    let (ser, de) = match &st.fields {
        Fields::Named(f) => {
            let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
            (
                quote! { #( serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* },
                quote! { Self { #( #ids: serdes::ExpSerde::deserialize_from(&mut reader)? ),* } },
            )
        }
        Fields::Unnamed(f) => {
            let ids: Vec<_> = (0..f.unnamed.len()).map(syn::Index::from).collect();
            (
                quote! { #( serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* },
                quote! { Self { #( #ids: serdes::ExpSerde::deserialize_from(&mut reader)? ),* } },
            )
        }
        Fields::Unit => (quote! {}, quote! { Self }),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize_into<W: std::io::Write>(&self, mut writer: W) -> serdes::SerdeResult<()> {
                #ser
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_from<R: std::io::Read>(mut reader: R) -> serdes::SerdeResult<Self> {
                Ok(#de)
            }
        }
    }
    .into()
}
