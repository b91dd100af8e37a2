//! Attribute macros of the mini-pyo3 stand-in: just enough of pyo3's surface
//! for /repo/src to compile verbatim into a real CPython extension module.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use std::collections::HashMap;
use syn::{
    parse::Parser, parse_macro_input, punctuated::Punctuated, Attribute, Expr, FnArg, ImplItem,
    Item, ItemFn, ItemImpl, ItemMod, Pat, Signature, Token, Type, UseTree,
};

fn take_signature(attrs: &mut Vec<Attribute>) -> HashMap<String, Expr> {
    let mut out = HashMap::new();
    let mut keep = vec![];
    for a in attrs.drain(..) {
        if !a.path().is_ident("pyo3") {
            keep.push(a);
            continue;
        }
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("signature") {
                let e: Expr = m.value()?.parse()?;
                let elems: Vec<Expr> = match e {
                    Expr::Tuple(t) => t.elems.into_iter().collect(),
                    Expr::Paren(p) => vec![*p.expr],
                    _ => vec![],
                };
                for el in elems {
                    if let Expr::Assign(asg) = el {
                        if let Expr::Path(p) = *asg.left {
                            if let Some(id) = p.path.get_ident() {
                                out.insert(id.to_string(), *asg.right);
                            }
                        }
                    }
                }
            } else if m.input.peek(Token![=]) {
                let _: Expr = m.value()?.parse()?;
            }
            Ok(())
        });
    }
    *attrs = keep;
    out
}

/// (name, type) of each non-receiver argument
fn arg_list(sig: &Signature) -> Vec<(syn::Ident, Type)> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some((i.ident.clone(), (*t.ty).clone())),
                _ => panic!("mini-pyo3: unsupported argument pattern"),
            },
            FnArg::Receiver(_) => None,
        })
        .collect()
}

fn extraction(args: &[(syn::Ident, Type)], defaults: &HashMap<String, Expr>) -> (TS, Vec<TS>) {
    let names: Vec<String> = args.iter().map(|(n, _)| n.to_string()).collect();
    let n = names.len();
    let mut body = quote! {
        let __slots = ::pyo3::bb::bind_args(&[#(#names),*], args, kwargs)?;
        debug_assert!(__slots.len() == #n);
    };
    let mut pass = vec![];
    for (i, (name, ty)) in args.iter().enumerate() {
        let v = format_ident!("__arg_{}", name);
        let (own, is_ref): (TS, bool) = match ty {
            Type::Reference(r) => {
                let inner = &r.elem;
                let s = quote!(#inner).to_string();
                if s == "str" { (quote!(String), true) } else { (quote!(#inner), true) }
            }
            t => (quote!(#t), false),
        };
        let missing = match defaults.get(&name.to_string()) {
            Some(d) if is_ref => quote!((#d).into()),
            Some(d) => quote!(#d),
            None => {
                let s = name.to_string();
                quote!(return Err(::pyo3::bb::missing(#s)))
            }
        };
        body.extend(quote! {
            let #v: #own = match __slots[#i] {
                Some(o) => <#own as ::pyo3::bb::FromPy>::from_py(o)?,
                None => #missing,
            };
        });
        pass.push(if is_ref { quote!(&#v) } else { quote!(#v) });
    }
    (body, pass)
}

#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let defaults = take_signature(&mut f.attrs);
    let name = &f.sig.ident;
    let name_s = name.to_string();
    let (body, pass) = extraction(&arg_list(&f.sig), &defaults);
    quote! {
        #f
        #[doc(hidden)]
        #[allow(unused_imports, clippy::all, clippy::pedantic, clippy::nursery)]
        pub mod #name {
            use super::*;
            unsafe fn __inner(
                args: *mut ::pyo3::bb::PyObject, kwargs: *mut ::pyo3::bb::PyObject,
            ) -> Result<*mut ::pyo3::bb::PyObject, ::pyo3::bb::Err> {
                unsafe {
                    #body
                    let r = ::pyo3::bb::guard(move || super::#name(#(#pass),*))?;
                    Ok(::pyo3::bb::ToPy::to_py(r))
                }
            }
            unsafe extern "C" fn __wrap(
                _s: *mut ::pyo3::bb::PyObject,
                args: *mut ::pyo3::bb::PyObject, kwargs: *mut ::pyo3::bb::PyObject,
            ) -> *mut ::pyo3::bb::PyObject {
                unsafe { ::pyo3::bb::finish(__inner(args, kwargs)) }
            }
            pub unsafe fn __bb_register(m: *mut ::pyo3::bb::PyObject) {
                unsafe { ::pyo3::bb::add_function(m, #name_s, __wrap) }
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyclass(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let it = parse_macro_input!(item as Item);
    let (name, extra) = match &it {
        Item::Struct(s) => (s.ident.clone(), quote!()),
        Item::Enum(e) => {
            let name = e.ident.clone();
            let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let vs: Vec<String> = vars.iter().map(|v| v.to_string()).collect();
            let idx: Vec<i64> = (0..vars.len() as i64).collect();
            (
                name.clone(),
                quote! {
                    impl ::pyo3::bb::ClassBody for #name {
                        fn methods() -> Vec<::pyo3::bb::Method> { vec![] }
                        fn constructor() -> Option<::pyo3::bb::Wrap> { None }
                        fn variants() -> Vec<(&'static str, Self)> {
                            vec![#((#vs, #name::#vars)),*]
                        }
                        fn ordinal(&self) -> Option<(i64, &'static str)> {
                            Some(match self { #(#name::#vars => (#idx, #vs)),* })
                        }
                    }
                    impl ::pyo3::bb::FromPy for #name {
                        unsafe fn from_py(o: *mut ::pyo3::bb::PyObject) -> Result<Self, ::pyo3::bb::Err> {
                            unsafe { Ok((*::pyo3::bb::unbox::<#name>(o)?).clone()) }
                        }
                    }
                },
            )
        }
        _ => panic!("mini-pyo3: pyclass on unsupported item"),
    };
    let name_s = name.to_string();
    quote! {
        #it
        #extra
        impl ::pyo3::bb::Class for #name { const NAME: &'static str = #name_s; }
        impl ::pyo3::bb::ToPy for #name {
            fn to_py(self) -> *mut ::pyo3::bb::PyObject { unsafe { ::pyo3::bb::boxed(self) } }
        }
        #[allow(clippy::all)]
        impl #name {
            #[doc(hidden)]
            pub unsafe fn __bb_register(m: *mut ::pyo3::bb::PyObject) {
                unsafe { ::pyo3::bb::add_class::<#name>(m) }
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut imp = parse_macro_input!(item as ItemImpl);
    let ty = imp.self_ty.clone();
    let mut wraps = TS::new();
    let mut list = TS::new();
    let mut ctor = quote!(None);
    for it in imp.items.iter_mut() {
        let ImplItem::Fn(f) = it else { continue };
        let defaults = take_signature(&mut f.attrs);
        let mut kind = "method";
        let mut keep = vec![];
        for a in f.attrs.drain(..) {
            if a.path().is_ident("new") { kind = "new"; }
            else if a.path().is_ident("getter") { kind = "getter"; }
            else if a.path().is_ident("staticmethod") { kind = "static"; }
            else { keep.push(a); }
        }
        f.attrs = keep;
        let name = f.sig.ident.clone();
        let name_s = name.to_string();
        let (body, pass) = extraction(&arg_list(&f.sig), &defaults);
        let inner = format_ident!("__bb_inner_{}", name);
        let wrap = format_ident!("__bb_wrap_{}", name);
        let recv = f.sig.receiver().is_some();
        let call = if recv {
            quote! {
                let __this = ::pyo3::bb::unbox::<#ty>(slf)?;
                let r = ::pyo3::bb::guard(move || (*__this).#name(#(#pass),*))?;
            }
        } else {
            quote! { let r = ::pyo3::bb::guard(move || <#ty>::#name(#(#pass),*))?; }
        };
        wraps.extend(quote! {
            #[allow(non_snake_case, clippy::all)]
            unsafe fn #inner(
                slf: *mut ::pyo3::bb::PyObject,
                args: *mut ::pyo3::bb::PyObject, kwargs: *mut ::pyo3::bb::PyObject,
            ) -> Result<*mut ::pyo3::bb::PyObject, ::pyo3::bb::Err> {
                unsafe { let _ = slf; #body #call Ok(::pyo3::bb::ToPy::to_py(r)) }
            }
            #[allow(non_snake_case, clippy::all)]
            unsafe extern "C" fn #wrap(
                slf: *mut ::pyo3::bb::PyObject,
                args: *mut ::pyo3::bb::PyObject, kwargs: *mut ::pyo3::bb::PyObject,
            ) -> *mut ::pyo3::bb::PyObject {
                unsafe { ::pyo3::bb::finish(#inner(slf, args, kwargs)) }
            }
        });
        match kind {
            "new" => ctor = quote!(Some(#wrap)),
            "getter" => list.extend(quote! {
                ::pyo3::bb::Method { name: #name_s, wrap: #wrap, getter: true },
            }),
            _ => list.extend(quote! {
                ::pyo3::bb::Method { name: #name_s, wrap: #wrap, getter: false },
            }),
        }
    }
    quote! {
        #imp
        #[allow(clippy::all, non_local_definitions)]
        const _: () = {
            #wraps
            impl ::pyo3::bb::ClassBody for #ty {
                fn methods() -> Vec<::pyo3::bb::Method> { vec![#list] }
                fn constructor() -> Option<::pyo3::bb::Wrap> { #ctor }
            }
        };
    }
    .into()
}

fn leaves(t: &UseTree, out: &mut Vec<syn::Ident>) {
    match t {
        UseTree::Path(p) => leaves(&p.tree, out),
        UseTree::Name(n) => out.push(n.ident.clone()),
        UseTree::Rename(r) => out.push(r.rename.clone()),
        UseTree::Group(g) => g.items.iter().for_each(|x| leaves(x, out)),
        UseTree::Glob(_) => {}
    }
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut m = parse_macro_input!(item as ItemMod);
    let name = m.ident.clone();
    let name_s = name.to_string();
    let init = format_ident!("PyInit_{}", name);
    let mut names = vec![];
    if let Some((_, items)) = m.content.as_mut() {
        for it in items.iter_mut() {
            match it {
                Item::Use(u) => {
                    let before = u.attrs.len();
                    u.attrs.retain(|a| !a.path().is_ident("pymodule_export"));
                    if u.attrs.len() != before { leaves(&u.tree, &mut names); }
                }
                Item::Fn(f) if f.attrs.iter().any(|a| a.path().is_ident("pyfunction")) => {
                    names.push(f.sig.ident.clone());
                }
                Item::Struct(s) if s.attrs.iter().any(|a| a.path().is_ident("pyclass")) => {
                    names.push(s.ident.clone());
                }
                _ => {}
            }
        }
        items.push(syn::parse_quote! {
            #[unsafe(no_mangle)]
            #[allow(clippy::all)]
            pub unsafe extern "C" fn #init() -> *mut ::pyo3::bb::PyObject {
                unsafe {
                    let m = ::pyo3::bb::new_module(#name_s);
                    #(#names::__bb_register(m);)*
                    m
                }
            }
        });
    }
    let _ = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(TS::new());
    quote!(#m).into()
}
