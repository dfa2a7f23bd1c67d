//! #[rpc(server)] without a server: the trait, and a way to call its methods by name with JSON parameters.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, ItemTrait, LitStr, Pat, TraitItem};

#[proc_macro_attribute]
pub fn rpc(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut t = parse_macro_input!(item as ItemTrait);
    t.ident = format_ident!("{}Server", t.ident);
    t.supertraits = syn::parse_quote!(Sized + Send + Sync + 'static);
    let mut arms = vec![];
    for i in t.items.iter_mut() {
        if let TraitItem::Fn(f) = i {
            let mut names = vec![];
            f.attrs.retain(|a| {
                if a.path().is_ident("method") {
                    a.parse_nested_meta(|m| {
                        if m.path.is_ident("name") {
                            names.push(m.value()?.parse::<LitStr>()?.value());
                        } else if m.input.peek(syn::Token![=]) {
                            let _: syn::Expr = m.value()?.parse()?;
                        }
                        Ok(())
                    })
                    .unwrap();
                }
                !a.path().is_ident("method") && !a.path().is_ident("argument")
            });
            let id = &f.sig.ident;
            let mut lets = vec![];
            let mut args = vec![];
            for a in &f.sig.inputs {
                if let FnArg::Typed(p) = a {
                    let n = match &*p.pat { Pat::Ident(x) => format_ident!("arg_{}", x.ident), _ => format_ident!("arg_{}", args.len()) };
                    let ty = &p.ty;
                    lets.push(quote!(let #n: #ty = match ::jsonrpsee::read(it.next()) { Ok(x) => x, Err(e) => return Some(Err(e)) };));
                    args.push(n);
                }
            }
            let wait = f.sig.asyncness.map(|_| quote!(.await));
            for n in names {
                arms.push(quote!(#n => { #(#lets)* Some(self.#id(#(#args),*)#wait.map(|r| ::jsonrpsee::write(&r))) }));
            }
        }
    }
    let call: TraitItem = syn::parse_quote!(
        async fn call_by_name(&self, method: &str, params: Vec<::jsonrpsee::Value>) -> Option<Result<::jsonrpsee::Value, ::jsonrpsee::types::ErrorObjectOwned>> {
            let mut it = params.into_iter();
            match method { #(#arms)* _ => None }
        }
    );
    t.items.push(call);
    t.items.push(syn::parse_quote!(fn into_rpc(self) -> ::jsonrpsee::server::RpcModule<Self> { ::jsonrpsee::server::RpcModule::with_calls(self, |c, m, p| Box::pin(async move { c.call_by_name(&m, p).await })) }));
    quote!(#[::jsonrpsee::core::async_trait] #t).into()
}
