//! Offline stand-in for `derive_builder` 0.12: the subset of `#[derive(Builder)]` that hyperbee
//! (and small refactorings of it) can use.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS2;
use quote::{format_ident, quote};
use syn::{parse_macro_input, punctuated::Punctuated, Data, DeriveInput, Expr, Fields, Ident, LitStr, Meta, Path, Token};

#[derive(Default)]
struct Opts {
    pattern: Option<String>,
    derives: Vec<Path>,
    validate: Option<Path>,
    build_name: Option<Ident>,
    build_skip: bool,
    name: Option<Ident>,
    default: Option<Option<Expr>>,
    custom: bool,
    skip: bool,
    into: bool,
    strip_option: bool,
    setter_name: Option<Ident>,
}

fn parse(attrs: &[syn::Attribute]) -> syn::Result<Opts> {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("builder")) {
        if let Meta::Path(_) = a.meta { continue; }
        a.parse_nested_meta(|m| {
            if m.path.is_ident("pattern") {
                o.pattern = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("name") {
                o.name = Some(m.value()?.parse::<LitStr>()?.parse()?);
            } else if m.path.is_ident("derive") {
                let c; syn::parenthesized!(c in m.input);
                let ps: Punctuated<Path, Token![,]> = Punctuated::parse_terminated(&c)?;
                o.derives.extend(ps);
            } else if m.path.is_ident("build_fn") {
                m.parse_nested_meta(|b| {
                    if b.path.is_ident("validate") { o.validate = Some(b.value()?.parse::<LitStr>()?.parse()?); }
                    else if b.path.is_ident("name") { o.build_name = Some(b.value()?.parse::<LitStr>()?.parse()?); }
                    else if b.path.is_ident("skip") { o.build_skip = true; }
                    else { return Err(b.error("derive_builder stand-in: unsupported build_fn option")); }
                    Ok(())
                })?;
            } else if m.path.is_ident("default") {
                o.default = Some(if m.input.peek(Token![=]) {
                    Some(m.value()?.parse::<LitStr>()?.parse::<Expr>()?)
                } else { None });
            } else if m.path.is_ident("setter") {
                m.parse_nested_meta(|b| {
                    if b.path.is_ident("custom") { o.custom = true; if b.input.peek(Token![=]) { let _: syn::Lit = b.value()?.parse()?; } }
                    else if b.path.is_ident("skip") { o.skip = true; }
                    else if b.path.is_ident("into") { o.into = true; }
                    else if b.path.is_ident("strip_option") { o.strip_option = true; }
                    else if b.path.is_ident("name") { o.setter_name = Some(b.value()?.parse::<LitStr>()?.parse()?); }
                    else { return Err(b.error("derive_builder stand-in: unsupported setter option")); }
                    Ok(())
                })?;
            } else if m.path.is_ident("private") || m.path.is_ident("public") {
            } else {
                return Err(m.error("derive_builder stand-in: unsupported option"));
            }
            Ok(())
        })?;
    }
    Ok(o)
}

fn option_inner(t: &syn::Type) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Option" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() { return Some(t.clone()); }
            }
        }
    }
    None
}

#[proc_macro_derive(Builder, attributes(builder))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    expand(input).unwrap_or_else(|e| e.to_compile_error()).into()
}

fn expand(input: DeriveInput) -> syn::Result<TS2> {
    let o = parse(&input.attrs)?;
    let st = &input.ident;
    let vis = &input.vis;
    let b = o.name.clone().unwrap_or_else(|| format_ident!("{}Builder", st));
    let err = format_ident!("{}Error", b);
    let pattern = o.pattern.clone().unwrap_or_else(|| "mutable".into());
    let owned = pattern == "owned";
    let Data::Struct(ds) = &input.data else { return Err(syn::Error::new_spanned(st, "struct expected")) };
    let Fields::Named(fs) = &ds.fields else { return Err(syn::Error::new_spanned(st, "named fields expected")) };
    let mut decl = vec![]; let mut inits = vec![]; let mut setters = vec![]; let mut take = vec![];
    for f in &fs.named {
        let fo = parse(&f.attrs)?;
        let (n, ty) = (f.ident.as_ref().unwrap(), &f.ty);
        let fvis = &f.vis; let _ = fvis;
        decl.push(quote! { #n: ::core::option::Option<#ty> });
        inits.push(quote! { #n: ::core::option::Option::None });
        let name = n.to_string();
        let dflt = match fo.default.as_ref().or(o.default.as_ref()) {
            Some(Some(e)) => quote! { { #e } },
            Some(None) => quote! { ::core::default::Default::default() },
            None if fo.skip => quote! { ::core::default::Default::default() },
            None => quote! { return ::core::result::Result::Err(#err::UninitializedField(#name)) },
        };
        let get = if owned { quote! { self.#n } } else { quote! { ::core::clone::Clone::clone(&self.#n) } };
        take.push(quote! { #n: match #get { ::core::option::Option::Some(v) => v, ::core::option::Option::None => #dflt } });
        if !fo.custom && !fo.skip {
            let sn = fo.setter_name.clone().unwrap_or_else(|| n.clone());
            let into = fo.into || o.into;
            let strip = fo.strip_option || o.strip_option;
            let (pty, wrap): (TS2, TS2) = match (strip, option_inner(ty)) {
                (true, Some(i)) => (quote! { #i }, quote! { ::core::option::Option::Some }),
                _ => (quote! { #ty }, quote! {}),
            };
            let (gen, arg, val) = if into {
                (quote! { <VALUE: ::core::convert::Into<#pty>> }, quote! { VALUE }, quote! { #wrap (value.into()) })
            } else { (quote! {}, quote! { #pty }, quote! { #wrap (value) }) };
            setters.push(match pattern.as_str() {
                "owned" => quote! { #[allow(unused_mut, dead_code)] pub fn #sn #gen (mut self, value: #arg) -> Self { self.#n = ::core::option::Option::Some(#val); self } },
                "immutable" => quote! { #[allow(dead_code)] pub fn #sn #gen (&self, value: #arg) -> Self { let mut new = ::core::clone::Clone::clone(self); new.#n = ::core::option::Option::Some(#val); new } },
                _ => quote! { #[allow(unused_mut, dead_code)] pub fn #sn #gen (&mut self, value: #arg) -> &mut Self { self.#n = ::core::option::Option::Some(#val); self } },
            });
        }
    }
    let derives = &o.derives;
    let clone = if owned { quote! {} } else { quote! { #[derive(Clone)] } };
    let validate = o.validate.as_ref().map(|p| quote! { #p(&self).map_err(#err::ValidationError)?; }).unwrap_or_default();
    let bname = o.build_name.clone().unwrap_or_else(|| format_ident!("build"));
    let recv = if owned { quote! { self } } else { quote! { &self } };
    let build = if o.build_skip { quote! {} } else { quote! {
        pub fn #bname(#recv) -> ::core::result::Result<#st, #err> {
            #validate
            ::core::result::Result::Ok(#st { #(#take),* })
        }
    } };
    Ok(quote! {
        #clone
        #(#[derive(#derives)])*
        #vis struct #b { #(#decl),* }
        impl ::core::default::Default for #b { fn default() -> Self { Self { #(#inits),* } } }
        #[allow(dead_code)]
        impl #b {
            #(#setters)*
            #build
        }
        #[derive(Debug)]
        #[non_exhaustive]
        #vis enum #err { UninitializedField(&'static str), ValidationError(::std::string::String) }
        impl ::core::fmt::Display for #err {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                match self {
                    Self::UninitializedField(n) => write!(f, "`{}` must be initialized", n),
                    Self::ValidationError(s) => write!(f, "{}", s),
                }
            }
        }
        impl ::std::error::Error for #err {}
        impl ::core::convert::From<::std::string::String> for #err {
            fn from(s: ::std::string::String) -> Self { Self::ValidationError(s) }
        }
    })
}
