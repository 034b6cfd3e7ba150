//! Native stand-in for the `#[wasm_bindgen]` attribute: imported items become
//! calls into the simulated browser in `wasm_bindgen::native`.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream},
    parse_macro_input,
    punctuated::Punctuated,
    Attribute, FnArg, ForeignItem, Ident, Item, LitStr, Pat, Path, ReturnType, Token, Type,
};

#[derive(Default)]
struct Opts {
    extends: Vec<Path>,
    js_name: Option<String>,
    js_class: Option<String>,
    namespace: Option<String>,
    inline_js: Option<String>,
    method: bool,
    catch: bool,
    variadic: bool,
    constructor: bool,
    getter: Option<Option<String>>,
    setter: Option<Option<String>>,
    static_of: Option<Ident>,
    indexing: Option<String>,
}

enum Val {
    None,
    Str(String),
    Path(Path),
    Other,
}

impl Parse for Opts {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut o = Opts::default();
        while !input.is_empty() {
            let key: Ident = syn::ext::IdentExt::parse_any(input)?;
            let mut val = Val::None;
            if input.peek(Token![=]) {
                input.parse::<Token![=]>()?;
                if input.peek(LitStr) {
                    val = Val::Str(input.parse::<LitStr>()?.value());
                } else if input.peek(Token![|]) {
                    let _: syn::Expr = input.parse()?;
                    val = Val::Other;
                } else if input.peek(syn::token::Bracket) {
                    let _: syn::Expr = input.parse()?;
                    val = Val::Other;
                } else {
                    // path or expression (macro call etc.)
                    match input.parse::<syn::Expr>()? {
                        syn::Expr::Path(p) => val = Val::Path(p.path),
                        _ => val = Val::Other,
                    }
                }
            }
            let s = |v: &Val| match v {
                Val::Str(s) => Some(s.clone()),
                Val::Path(p) => p.segments.last().map(|s| s.ident.to_string()),
                _ => None,
            };
            match key.to_string().as_str() {
                "extends" => match val {
                    Val::Path(p) => o.extends.push(p),
                    Val::Str(s) => o.extends.push(syn::parse_str(&s)?),
                    _ => {}
                },
                "js_name" => o.js_name = s(&val),
                "js_class" => o.js_class = s(&val),
                "js_namespace" => o.namespace = s(&val).or(Some("<ns>".into())),
                "inline_js" => o.inline_js = Some(s(&val).unwrap_or_default()),
                "method" => o.method = true,
                "catch" => o.catch = true,
                "variadic" => o.variadic = true,
                "constructor" => o.constructor = true,
                "getter" => o.getter = Some(s(&val)),
                "setter" => o.setter = Some(s(&val)),
                "static_method_of" => {
                    o.static_of = s(&val).map(|s| Ident::new(&s, Span::call_site()))
                }
                "indexing_getter" | "indexing_setter" | "indexing_deleter" => {
                    o.indexing = Some(key.to_string())
                }
                _ => {}
            }
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
            }
        }
        Ok(o)
    }
}

/// Take the `wasm_bindgen(..)` attributes out of `attrs`; drop docs, keep the rest.
fn split_attrs(attrs: Vec<Attribute>) -> syn::Result<(Opts, Vec<Attribute>)> {
    let mut o = Opts::default();
    let mut rest = vec![];
    for a in attrs {
        if a.path().is_ident("wasm_bindgen") {
            if matches!(a.meta, syn::Meta::List(_)) {
                let p: Opts = a.parse_args()?;
                o.extends.extend(p.extends);
                o.js_name = o.js_name.or(p.js_name);
                o.js_class = o.js_class.or(p.js_class);
                o.namespace = o.namespace.or(p.namespace);
                o.method |= p.method;
                o.catch |= p.catch;
                o.variadic |= p.variadic;
                o.constructor |= p.constructor;
                o.getter = o.getter.or(p.getter);
                o.setter = o.setter.or(p.setter);
                o.static_of = o.static_of.or(p.static_of);
                o.indexing = o.indexing.or(p.indexing);
            }
        } else if !a.path().is_ident("doc") {
            rest.push(a);
        }
    }
    Ok((o, rest))
}

#[proc_macro_attribute]
pub fn wasm_bindgen(
    attr: proc_macro::TokenStream,
    item: proc_macro::TokenStream,
) -> proc_macro::TokenStream {
    let opts = parse_macro_input!(attr as Opts);
    let item = parse_macro_input!(item as Item);
    let r = match item {
        Item::ForeignMod(m) => foreign(opts, m),
        Item::Enum(e) => enumeration(e),
        other => Ok(quote!(#other)),
    };
    r.unwrap_or_else(|e| e.to_compile_error()).into()
}

fn enumeration(e: syn::ItemEnum) -> syn::Result<TokenStream> {
    let is_str = e.variants.iter().any(|v| {
        matches!(&v.discriminant, Some((_, syn::Expr::Lit(l))) if matches!(l.lit, syn::Lit::Str(_)))
    });
    let attrs: Vec<_> = e.attrs.iter().filter(|a| !a.path().is_ident("doc")).collect();
    let vis = &e.vis;
    let name = &e.ident;
    if !is_str {
        let variants = &e.variants;
        return Ok(quote!(#(#attrs)* #vis enum #name { #variants }));
    }
    let idents: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let vals: Vec<_> = e
        .variants
        .iter()
        .map(|v| match &v.discriminant {
            Some((_, syn::Expr::Lit(l))) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => String::new(),
            },
            _ => String::new(),
        })
        .collect();
    Ok(quote! {
        #(#attrs)*
        #vis enum #name { #(#idents,)* #[doc(hidden)] __Invalid }
        impl ::wasm_bindgen::native::ToJs for #name {
            fn to_js(self) -> ::wasm_bindgen::JsValue {
                ::wasm_bindgen::JsValue::from_str(match self { #(#name::#idents => #vals,)* #name::__Invalid => "" })
            }
        }
        impl ::wasm_bindgen::native::FromJs for #name {
            fn from_js(v: ::wasm_bindgen::JsValue) -> Self {
                match v.as_string().as_deref() { #(Some(#vals) => #name::#idents,)* _ => #name::__Invalid }
            }
        }
        impl ::core::convert::From<#name> for ::wasm_bindgen::JsValue {
            fn from(v: #name) -> Self { ::wasm_bindgen::native::ToJs::to_js(v) }
        }
    })
}

fn foreign(block: Opts, m: syn::ItemForeignMod) -> syn::Result<TokenStream> {
    let mut out = TokenStream::new();
    for it in m.items {
        match it {
            ForeignItem::Type(t) => out.extend(foreign_type(t)?),
            ForeignItem::Fn(f) => out.extend(foreign_fn(f)?),
            ForeignItem::Static(s) => {
                let (_, rest) = split_attrs(s.attrs)?;
                let (vis, name, ty) = (s.vis, s.ident, s.ty);
                let js = block.inline_js.clone().unwrap_or_default();
                let text = Ident::new(&format!("__INLINE_JS_{name}"), Span::call_site());
                out.extend(quote! {
                    #[doc(hidden)]
                    #[allow(non_upper_case_globals, dead_code)]
                    const #text: &str = #js;
                    #(#rest)*
                    #[allow(non_upper_case_globals)]
                    #vis static #name: ::wasm_bindgen::native::InlineStatic<#ty> =
                        ::wasm_bindgen::native::InlineStatic::new(#js);
                });
            }
            _ => {}
        }
    }
    Ok(out)
}

fn foreign_type(t: syn::ForeignItemType) -> syn::Result<TokenStream> {
    let (o, rest) = split_attrs(t.attrs)?;
    let vis = t.vis;
    let name = t.ident;
    let js = o.js_name.clone().unwrap_or_else(|| name.to_string());
    let cfgs: Vec<_> = rest.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
    let target = match o.extends.first() {
        Some(p) => quote!(#p),
        None => quote!(::wasm_bindgen::JsValue),
    };
    let ext = &o.extends;
    Ok(quote! {
        #(#rest)*
        #[repr(transparent)]
        #vis struct #name { obj: ::wasm_bindgen::JsValue }
        #(#cfgs)*
        const _: () = {
            use ::wasm_bindgen::{JsValue, JsCast};
            impl ::core::ops::Deref for #name {
                type Target = #target;
                #[inline]
                fn deref(&self) -> &#target { <#target as JsCast>::unchecked_from_js_ref(&self.obj) }
            }
            impl JsCast for #name {
                fn instanceof(v: &JsValue) -> bool { ::wasm_bindgen::native::instance_of(v, #js) }
                fn unchecked_from_js(obj: JsValue) -> Self { Self { obj } }
                fn unchecked_from_js_ref(v: &JsValue) -> &Self {
                    // SAFETY: repr(transparent)
                    unsafe { &*(v as *const JsValue as *const Self) }
                }
            }
            impl AsRef<JsValue> for #name { fn as_ref(&self) -> &JsValue { &self.obj } }
            impl AsRef<#name> for #name { fn as_ref(&self) -> &#name { self } }
            impl From<#name> for JsValue { fn from(v: #name) -> JsValue { v.obj } }
            impl From<JsValue> for #name { fn from(obj: JsValue) -> Self { Self { obj } } }
            impl ::wasm_bindgen::native::ToJs for #name { fn to_js(self) -> JsValue { self.obj } }
            impl<'a> ::wasm_bindgen::native::ToJs for &'a #name { fn to_js(self) -> JsValue { self.obj.clone() } }
            impl ::wasm_bindgen::native::FromJs for #name { fn from_js(obj: JsValue) -> Self { Self { obj } } }
            #(
                impl From<#name> for #ext { fn from(v: #name) -> #ext { <#ext as JsCast>::unchecked_from_js(v.obj) } }
                impl AsRef<#ext> for #name { fn as_ref(&self) -> &#ext { <#ext as JsCast>::unchecked_from_js_ref(&self.obj) } }
            )*
        };
    })
}

fn unref(t: &Type) -> Type {
    match t {
        Type::Reference(r) => (*r.elem).clone(),
        o => o.clone(),
    }
}

fn foreign_fn(f: syn::ForeignItemFn) -> syn::Result<TokenStream> {
    let (o, rest) = split_attrs(f.attrs)?;
    let vis = f.vis;
    let sig = f.sig;
    let name = &sig.ident;
    let mut args: Vec<(Ident, Type)> = vec![];
    for (i, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(t) = a {
            let id = match &*t.pat {
                Pat::Ident(p) => p.ident.clone(),
                _ => format_ident!("arg{i}"),
            };
            args.push((id, (*t.ty).clone()));
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    let generics = &sig.generics;
    let js_name = o.js_name.clone().unwrap_or_else(|| name.to_string());
    let finish = |call: TokenStream| {
        if o.catch {
            quote!(match #call { Ok(v) => Ok(::wasm_bindgen::native::FromJs::from_js(v)), Err(e) => Err(e) })
        } else {
            quote!(match #call { Ok(v) => ::wasm_bindgen::native::FromJs::from_js(v), Err(e) => ::wasm_bindgen::native::uncaught(e) })
        }
    };
    let mk = |args: &[(Ident, Type)], variadic: bool| {
        let n = args.len();
        let parts: Vec<TokenStream> = args
            .iter()
            .enumerate()
            .map(|(i, (id, _))| {
                if variadic && i + 1 == n {
                    quote!(__a.extend(::wasm_bindgen::native::spread(&::wasm_bindgen::native::ToJs::to_js(#id)));)
                } else {
                    quote!(__a.push(::wasm_bindgen::native::ToJs::to_js(#id));)
                }
            })
            .collect();
        quote!({ #[allow(unused_mut)] let mut __a: ::wasm_bindgen::native::Args = Default::default(); #(#parts)* __a })
    };
    let params = |args: &[(Ident, Type)]| {
        let ids: Vec<_> = args.iter().map(|a| a.0.clone()).collect();
        let tys: Vec<_> = args.iter().map(|a| a.1.clone()).collect();
        quote!(#(#ids: #tys),*)
    };
    let is_async = sig.asyncness;
    let _ = is_async;
    if o.method {
        let this_ty = unref(&args[0].1);
        let rest_args = &args[1..];
        let ps = params(rest_args);
        let a = mk(rest_args, o.variadic);
        let (kind, key) = if let Some(g) = &o.getter {
            ("Get", g.clone().unwrap_or(js_name))
        } else if let Some(s) = &o.setter {
            let k = s.clone().unwrap_or_else(|| o.js_name.clone().unwrap_or_else(|| name.to_string().trim_start_matches("set_").to_string()));
            ("Set", k)
        } else if let Some(ix) = &o.indexing {
            ("Index", ix.clone())
        } else {
            ("Call", js_name)
        };
        let kind = Ident::new(kind, Span::call_site());
        let body = finish(quote!(::wasm_bindgen::native::dispatch(
            ::wasm_bindgen::native::Kind::#kind, #key, ::core::convert::AsRef::<::wasm_bindgen::JsValue>::as_ref(self), #a)));
        return Ok(quote! {
            #[automatically_derived]
            #(#rest)*
            impl #this_ty {
                #[allow(clippy::all)]
                #vis fn #name #generics (&self, #ps) -> #ret { #body }
            }
        });
    }
    let ps = params(&args);
    let a = mk(&args, o.variadic);
    if o.constructor {
        let class_ident: Type = match &sig.output {
            ReturnType::Type(_, t) => ret_class(t),
            _ => return Err(syn::Error::new(name.span(), "constructor without type")),
        };
        let class = o.js_class.clone().unwrap_or_default();
        let body = finish(quote!(::wasm_bindgen::native::construct(#class, #a)));
        return Ok(quote! {
            #(#rest)*
            impl #class_ident { #vis fn #name #generics (#ps) -> #ret { #body } }
        });
    }
    if let Some(cls) = &o.static_of {
        let class = cls.to_string();
        let body = finish(quote!(::wasm_bindgen::native::static_call(#class, #js_name, #a)));
        return Ok(quote! {
            #(#rest)*
            impl #cls { #vis fn #name #generics (#ps) -> #ret { #body } }
        });
    }
    let ns = o.namespace.clone().unwrap_or_default();
    let body = finish(quote!(::wasm_bindgen::native::static_call(#ns, #js_name, #a)));
    Ok(quote! {
        #(#rest)*
        #vis fn #name #generics (#ps) -> #ret { #body }
    })
}

/// `Result<X, JsValue>` or `X` -> `X`
fn ret_class(t: &Type) -> Type {
    if let Type::Path(p) = t {
        if let Some(seg) = p.path.segments.last() {
            if seg.ident == "Result" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    for g in &a.args {
                        if let syn::GenericArgument::Type(t) = g {
                            return t.clone();
                        }
                    }
                }
            }
        }
    }
    let _: Option<Punctuated<Ident, Token![,]>> = None;
    t.clone()
}
