use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Lit, Meta, NestedMeta};

#[derive(Default)]
struct Attr {
    kind:     String,
    repeated: bool,
    tags:     Vec<u32>,
    of:       String,
}

fn attr(attrs: &[syn::Attribute]) -> Attr {
    let mut a = Attr::default();
    for at in attrs.iter().filter(|a| a.path.is_ident("prost")) {
        let Ok(Meta::List(l)) = at.parse_meta() else { panic!("prost attribute") };
        for n in l.nested {
            match n {
                NestedMeta::Meta(Meta::Path(p)) => {
                    let s = p.get_ident().unwrap().to_string();
                    match s.as_str() {
                        "repeated" => a.repeated = true,
                        "optional" => panic!("optional"),
                        _ => a.kind = s,
                    }
                }
                NestedMeta::Meta(Meta::NameValue(nv)) => {
                    let k = nv.path.get_ident().unwrap().to_string();
                    let Lit::Str(v) = nv.lit else { panic!("literal") };
                    match k.as_str() {
                        "tag" | "tags" => a.tags = v.value().split(',').map(|t| t.trim().parse().unwrap()).collect(),
                        "oneof" => {
                            a.kind = k;
                            a.of = v.value()
                        }
                        "map" => {
                            assert_eq!(v.value().replace(' ', ""), "string,bytes");
                            a.kind = k
                        }
                        _ => panic!("{}", k),
                    }
                }
                _ => panic!("prost attribute"),
            }
        }
    }
    a
}

#[proc_macro_derive(Message, attributes(prost))]
pub fn message(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = input.ident;
    let Data::Struct(s) = input.data else { panic!("struct") };
    let (mut puts, mut gets, mut defaults, mut debugs) = (vec![], vec![], vec![], vec![]);
    for f in s.fields {
        let id = f.ident.unwrap();
        let a = attr(&f.attrs);
        let tags = a.tags;
        let tag = tags[0];
        let text = id.to_string();
        defaults.push(quote!(#id: Default::default()));
        debugs.push(quote!(.field(#text, &self.#id)));
        let (p, g) = match (a.kind.as_str(), a.repeated) {
            ("string", false) => (
                quote!(if !self.#id.is_empty() { wire::put_bytes(out, #tag, self.#id.as_bytes()) }),
                quote!(self.#id = wire::string(v)?),
            ),
            ("bytes", false) => (
                quote!(if !self.#id.is_empty() { wire::put_bytes(out, #tag, &self.#id) }),
                quote!(self.#id = wire::bytes(v)?.to_vec()),
            ),
            ("bytes", true) => (
                quote!(for b in &self.#id { wire::put_bytes(out, #tag, b) }),
                quote!(self.#id.push(wire::bytes(v)?.to_vec())),
            ),
            ("uint32", false) => (
                quote!(if self.#id != 0 { wire::put_varint(out, #tag, u64::from(self.#id)) }),
                quote!(self.#id = wire::number(v)? as u32),
            ),
            ("bool", false) => (
                quote!(if self.#id { wire::put_varint(out, #tag, 1) }),
                quote!(self.#id = wire::number(v)? != 0),
            ),
            ("message", false) => (
                quote!(if let Some(m) = &self.#id { wire::put_message(out, #tag, m) }),
                quote!(wire::merge(self.#id.get_or_insert_with(Default::default), wire::bytes(v)?)?),
            ),
            ("message", true) => (
                quote!(for m in &self.#id { wire::put_message(out, #tag, m) }),
                quote!({
                    let mut m = Default::default();
                    wire::merge(&mut m, wire::bytes(v)?)?;
                    self.#id.push(m)
                }),
            ),
            ("map", false) => (
                quote!(wire::put_map(out, #tag, &self.#id)),
                quote!(wire::map_entry(&mut self.#id, v)?),
            ),
            ("oneof", false) => (
                quote!(if let Some(o) = &self.#id { ::prost::Oneof::put(o, out) }),
                quote!(drop(::prost::Oneof::field(&mut self.#id, tag, v)?)),
            ),
            (k, r) => panic!("{} {}", k, r),
        };
        puts.push(p);
        gets.push(quote!(#(#tags)|* => #g));
    }
    let text = name.to_string();
    quote! {
        impl Default for #name {
            fn default() -> Self { #name { #(#defaults),* } }
        }
        impl ::core::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                f.debug_struct(#text)#(#debugs)*.finish()
            }
        }
        impl ::prost::Message for #name {
            fn put(&self, out: &mut Vec<u8>) {
                use ::prost::wire;
                #(#puts;)*
            }
            fn field(&mut self, tag: u32, v: &::prost::Wire) -> ::core::result::Result<(), ::prost::DecodeError> {
                use ::prost::wire;
                match tag { #(#gets,)* _ => () }
                Ok(())
            }
        }
    }
    .into()
}

#[proc_macro_derive(Oneof, attributes(prost))]
pub fn oneof(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = input.ident;
    let Data::Enum(e) = input.data else { panic!("enum") };
    let (mut puts, mut gets, mut debugs) = (vec![], vec![], vec![]);
    for var in e.variants {
        let id = var.ident;
        let a = attr(&var.attrs);
        let tag = a.tags[0];
        let text = id.to_string();
        debugs.push(quote!(#name::#id(m) => f.debug_tuple(#text).field(m).finish()));
        match a.kind.as_str() {
            "uint32" => {
                puts.push(quote!(#name::#id(n) => wire::put_varint(out, #tag, u64::from(*n))));
                gets.push(quote!(#tag => *old = Some(#name::#id(wire::number(v)? as u32))));
            }
            "message" => {
                puts.push(quote!(#name::#id(m) => wire::put_message(out, #tag, m)));
                gets.push(quote!(#tag => {
                    if let Some(#name::#id(m)) = old {
                        wire::merge(m, wire::bytes(v)?)?;
                    } else {
                        let mut m = Default::default();
                        wire::merge(&mut m, wire::bytes(v)?)?;
                        *old = Some(#name::#id(m));
                    }
                }));
            }
            k => panic!("{}", k),
        }
    }
    quote! {
        impl ::core::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                match self { #(#debugs,)* }
            }
        }
        impl ::prost::Oneof for #name {
            fn put(&self, out: &mut Vec<u8>) {
                use ::prost::wire;
                match self { #(#puts,)* }
            }
            fn field(old: &mut Option<Self>, tag: u32, v: &::prost::Wire) -> ::core::result::Result<bool, ::prost::DecodeError> {
                use ::prost::wire;
                match tag { #(#gets,)* _ => return Ok(false) }
                Ok(true)
            }
        }
    }
    .into()
}
