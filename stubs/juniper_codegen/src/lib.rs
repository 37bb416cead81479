//! Stand-in for juniper_codegen (not installed here): objects become JSON objects with camel case field names, input
//! objects are read from such, and the methods of the root objects are called by their GraphQL name with all their
//! arguments as variables.  The GraphQL language itself is left out.
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::Span;
use quote::quote;
use syn::{Attribute, Data, DeriveInput, Fields, FnArg, ImplItem, ItemImpl, Lit, Meta, NestedMeta, Pat, Type};

fn camel(s: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in s.trim_start_matches("r#").chars() {
        if c == '_' {
            up = !out.is_empty();
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

fn renamed(attrs: &[Attribute], name: &str) -> String {
    for a in attrs.iter().filter(|a| a.path.is_ident("graphql")) {
        if let Ok(Meta::List(l)) = a.parse_meta() {
            for n in l.nested.iter() {
                if let NestedMeta::Meta(Meta::NameValue(nv)) = n {
                    if nv.path.is_ident("name") {
                        if let Lit::Str(s) = &nv.lit {
                            return s.value();
                        }
                    }
                }
            }
        }
    }
    camel(name)
}

fn fields(d: &DeriveInput) -> Vec<(syn::Ident, String)> {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n
                .named
                .iter()
                .map(|f| {
                    let i = f.ident.clone().expect("named");
                    let n = renamed(&f.attrs, &i.to_string());
                    (i, n)
                })
                .collect(),
            _ => panic!("named fields expected"),
        },
        _ => panic!("struct expected"),
    }
}

#[proc_macro_derive(GraphQLObject, attributes(graphql))]
pub fn derive_object(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).expect("struct");
    let name = &d.ident;
    let (ids, names): (Vec<_>, Vec<_>) = fields(&d).into_iter().unzip();
    quote!(impl ::juniper::stub::Answer for #name {
        fn answer(&self) -> ::juniper::stub::Value {
            let mut m = ::juniper::stub::Map::new();
            #(m.insert(#names.to_owned(), ::juniper::stub::Answer::answer(&self.#ids));)*
            ::juniper::stub::Value::Object(m)
        }
    })
    .into()
}

#[proc_macro_derive(GraphQLInputObject, attributes(graphql))]
pub fn derive_input(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).expect("struct");
    let name = &d.ident;
    let (ids, names): (Vec<_>, Vec<_>) = fields(&d).into_iter().unzip();
    quote!(impl ::juniper::stub::Argument for #name {
        fn argument(v: Option<&::juniper::stub::Value>) -> Result<Self, String> {
            let v = v.ok_or("an argument is missing")?;
            Ok(#name { #(#ids: ::juniper::stub::Argument::argument(v.get(#names))?,)* })
        }
    })
    .into()
}

#[proc_macro_derive(GraphQLScalarValue, attributes(graphql))]
pub fn derive_scalar(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).expect("struct");
    let name = &d.ident;
    quote!(
        impl ::juniper::stub::Answer for #name {
            fn answer(&self) -> ::juniper::stub::Value { ::juniper::stub::Answer::answer(&self.0) }
        }
        impl ::juniper::stub::Argument for #name {
            fn argument(v: Option<&::juniper::stub::Value>) -> Result<Self, String> {
                Ok(#name(::juniper::stub::Argument::argument(v)?))
            }
        }
    )
    .into()
}

#[proc_macro_derive(GraphQLEnum, attributes(graphql))]
pub fn derive_enum(input: TokenStream) -> TokenStream {
    let d: DeriveInput = syn::parse(input).expect("enum");
    let name = &d.ident;
    let vs: Vec<syn::Ident> = match &d.data {
        Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(),
        _ => panic!("enum expected"),
    };
    let names: Vec<String> = vs.iter().map(|v| v.to_string().to_uppercase()).collect();
    quote!(impl ::juniper::stub::Argument for #name {
        fn argument(v: Option<&::juniper::stub::Value>) -> Result<Self, String> {
            let s: String = ::juniper::stub::Argument::argument(v)?;
            match s.as_str() {
                #(#names => Ok(#name::#vs),)*
                x => Err(format!("no such value {}", x)),
            }
        }
    })
    .into()
}

#[proc_macro_attribute]
pub fn object(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut imp: ItemImpl = syn::parse(input).expect("impl");
    let ty = imp.self_ty.clone();
    let mut ctx: Option<Type> = None;
    let mut arms = vec![];
    for it in imp.items.iter_mut() {
        if let ImplItem::Method(m) = it {
            let id = m.sig.ident.clone();
            let name = renamed(&m.attrs, &id.to_string());
            m.attrs.retain(|a| !a.path.is_ident("graphql"));
            let mut args = vec![];
            for a in m.sig.inputs.iter() {
                if let FnArg::Typed(p) = a {
                    match &*p.ty {
                        Type::Reference(r) => {
                            ctx = Some((*r.elem).clone());
                            args.push(quote!(ctx));
                        }
                        t => {
                            let n = match &*p.pat {
                                Pat::Ident(i) => camel(&i.ident.to_string()),
                                _ => panic!("plain arguments expected"),
                            };
                            args.push(quote!(<#t as ::juniper::stub::Argument>::argument(vars.get(#n))?));
                        }
                    }
                }
            }
            let _ = Span::call_site();
            arms.push(quote!(#name => Some(Self::#id(#(#args),*).map(|x| ::juniper::stub::Answer::answer(&x)).map_err(|e| e.message().to_owned())),));
        }
    }
    let ctx = ctx.expect("a context");
    quote!(
        #imp
        impl ::juniper::stub::Root<#ctx> for #ty {
            fn call(ctx: &#ctx, name: &str, vars: &::juniper::stub::Value) -> Result<Option<Result<::juniper::stub::Value, String>>, String> {
                Ok(match name {
                    #(#arms)*
                    _ => None,
                })
            }
        }
    )
    .into()
}
