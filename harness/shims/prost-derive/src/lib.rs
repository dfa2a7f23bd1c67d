//! Stand-in for prost-derive (see ../prost).
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput};

fn attr(attrs: &[syn::Attribute]) -> (String, u32, String) {
    // (kind, tag, argument)
    for a in attrs {
        if a.path().is_ident("prost") {
            let s = a.meta.require_list().unwrap().tokens.to_string();
            let get = |k: &str| s.find(&format!("{k} = \"")).map(|i| { let r = &s[i + k.len() + 4..]; r[..r.find('"').unwrap()].to_string() });
            if let Some(o) = get("oneof") { return ("oneof".into(), 0, o); }
            let tag = get("tag").unwrap().parse().unwrap();
            if get("map").is_some() { return ("map".into(), tag, String::new()); }
            let kind = s.split([',', ' ']).next().unwrap().to_string();
            let kind = if s.contains("repeated") { format!("repeated_{kind}") } else { kind };
            return (kind, tag, String::new());
        }
    }
    panic!("a field without a prost attribute")
}

#[proc_macro_derive(Message, attributes(prost))]
pub fn message(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let Data::Struct(s) = &d.data else { panic!() };
    let (mut put, mut get, mut dbg, mut def) = (vec![], vec![], vec![], vec![]);
    for f in &s.fields {
        let id = f.ident.as_ref().unwrap();
        let (kind, tag, arg) = attr(&f.attrs);
        let name = id.to_string();
        dbg.push(quote!(.field(#name, &self.#id)));
        def.push(quote!(#id: ::core::default::Default::default()));
        let (p, g) = match kind.as_str() {
            "uint32" => (quote!(if self.#id != 0 { ::prost::put_int(#tag, self.#id as u64, o) }), quote!(#tag => self.#id = ::prost::int(&v)? as u32)),
            "uint64" => (quote!(if self.#id != 0 { ::prost::put_int(#tag, self.#id as u64, o) }), quote!(#tag => self.#id = ::prost::int(&v)?)),
            "bool" => (quote!(if self.#id { ::prost::put_int(#tag, 1, o) }), quote!(#tag => self.#id = ::prost::int(&v)? != 0)),
            "string" => (quote!(if !self.#id.is_empty() { ::prost::put_len(#tag, self.#id.as_bytes(), o) }), quote!(#tag => self.#id = ::prost::text(&v)?)),
            "bytes" => (quote!(if !self.#id.is_empty() { ::prost::put_len(#tag, &self.#id, o) }), quote!(#tag => self.#id = ::prost::len(&v)?.to_vec().into())),
            "repeated_bytes" => (quote!(for x in &self.#id { ::prost::put_len(#tag, x, o) }), quote!(#tag => self.#id.push(::prost::len(&v)?.to_vec().into()))),
            "repeated_message" => (
                quote!(for x in &self.#id { ::prost::put_len(#tag, &::prost::Message::encode_to_vec(x), o) }),
                quote!(#tag => { let mut m = ::core::default::Default::default(); ::prost::Message::merge_bytes(&mut m, ::prost::len(&v)?)?; self.#id.push(m) }),
            ),
            "message" => (
                quote!(if let Some(x) = &self.#id { ::prost::put_len(#tag, &::prost::Message::encode_to_vec(x), o) }),
                quote!(#tag => ::prost::Message::merge_bytes(self.#id.get_or_insert_with(::core::default::Default::default), ::prost::len(&v)?)?),
            ),
            "map" => (
                quote!(for (k, x) in &self.#id { ::prost::put_entry(#tag, k, x, o) }),
                quote!(#tag => { let (k, x) = ::prost::map_entry(&v)?; self.#id.insert(k, x); }),
            ),
            "oneof" => {
                let t = format_ident!("{}", arg);
                get.push(quote!(t if #t::is_tag(t) => #t::merge_into(&mut self.#id, t, v)?));
                put.push(quote!(if let Some(x) = &self.#id { x.put_variant(o) }));
                continue;
            }
            k => panic!("prost kind {k}"),
        };
        put.push(p);
        get.push(g);
    }
    let sname = n.to_string();
    quote! {
        impl ::core::default::Default for #n { fn default() -> Self { #n { #(#def),* } } }
        impl ::core::fmt::Debug for #n { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct(#sname) #(#dbg)* .finish() } }
        impl ::prost::Message for #n {
            #[allow(unused_variables)]
            fn put(&self, o: &mut Vec<u8>) { #(#put)* }
            #[allow(unused_variables)]
            fn merge_field(&mut self, tag: u32, v: ::prost::Val<'_>) -> ::core::result::Result<(), ::prost::DecodeError> {
                match tag { #(#get,)* _ => () }
                Ok(())
            }
        }
    }
    .into()
}

#[proc_macro_derive(Oneof, attributes(prost))]
pub fn oneof(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let n = &d.ident;
    let Data::Enum(e) = &d.data else { panic!() };
    let (mut put, mut get, mut tags, mut dbg) = (vec![], vec![], vec![], vec![]);
    for v in &e.variants {
        let id = &v.ident;
        let (kind, tag, _) = attr(&v.attrs);
        let name = id.to_string();
        tags.push(tag);
        dbg.push(quote!(#n::#id(x) => f.debug_tuple(#name).field(x).finish()));
        match kind.as_str() {
            "uint32" => {
                put.push(quote!(#n::#id(x) => ::prost::put_int(#tag, *x as u64, o)));
                get.push(quote!(#tag => *slot = Some(#n::#id(::prost::int(&v)? as u32))));
            }
            "message" => {
                put.push(quote!(#n::#id(x) => ::prost::put_len(#tag, &::prost::Message::encode_to_vec(x), o)));
                get.push(quote!(#tag => { let mut m = ::core::default::Default::default(); ::prost::Message::merge_bytes(&mut m, ::prost::len(&v)?)?; *slot = Some(#n::#id(m)) }));
            }
            k => panic!("prost kind {k}"),
        }
    }
    quote! {
        impl ::core::fmt::Debug for #n { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#dbg),* } } }
        impl #n {
            #[doc(hidden)] pub fn is_tag(t: u32) -> bool { [#(#tags),*].contains(&t) }
            #[doc(hidden)] pub fn put_variant(&self, o: &mut Vec<u8>) { match self { #(#put),* } }
            #[doc(hidden)] pub fn merge_into(slot: &mut Option<Self>, t: u32, v: ::prost::Val<'_>) -> ::core::result::Result<(), ::prost::DecodeError> {
                match t { #(#get,)* _ => () }
                Ok(())
            }
        }
    }
    .into()
}
