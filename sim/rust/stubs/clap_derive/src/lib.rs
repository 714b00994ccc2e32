//! `#[derive(Parser)]` and `#[derive(ValueEnum)]` for the options a small
//! program has.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Lit, Meta, Token};

#[derive(Default)]
struct Opts {
    long: Option<String>,
    short: Option<char>,
    default: Option<proc_macro2::TokenStream>,
    value_enum: bool,
    count: bool,
    skip: bool,
    sub: bool,
}

fn kebab(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c == '_' {
            out.push('-');
        } else if c.is_uppercase() {
            if i > 0 {
                out.push('-');
            }
            out.extend(c.to_lowercase());
        } else {
            out.push(c);
        }
    }
    out
}

fn opts(attrs: &[Attribute], name: &str) -> Opts {
    let mut o = Opts::default();
    for a in attrs {
        if !(a.path().is_ident("clap") || a.path().is_ident("arg") || a.path().is_ident("value")) {
            continue;
        }
        let metas = a
            .parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
            .expect("attribute");
        for m in metas {
            let id = m.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
            let value = match &m {
                Meta::NameValue(nv) => Some(nv.value.clone()),
                _ => None,
            };
            let text = match &value {
                Some(syn::Expr::Lit(l)) => match &l.lit {
                    Lit::Str(s) => Some(s.value()),
                    Lit::Char(c) => Some(c.value().to_string()),
                    _ => None,
                },
                _ => None,
            };
            match id.as_str() {
                "long" | "name" => o.long = Some(text.unwrap_or_else(|| kebab(name))),
                "short" => o.short = Some(text.and_then(|t| t.chars().next()).unwrap_or_else(|| name.chars().next().unwrap())),
                "default_value" => o.default = value.map(|v| quote!(::std::ffi::OsString::from(#v))),
                "default_value_t" => o.default = value.map(|v| quote!(::std::ffi::OsString::from((#v).to_string()))),
                "value_enum" | "arg_enum" => o.value_enum = true,
                "skip" => o.skip = true,
                "subcommand" => o.sub = true,
                "action" => {
                    let s = quote!(#value).to_string();
                    o.count = s.contains("Count");
                }
                "parse" => {
                    if let Meta::List(l) = &m {
                        o.count = l.tokens.to_string().contains("from_occurrences");
                    }
                }
                _ => {}
            }
        }
    }
    o
}

fn fields(fields: &syn::FieldsNamed) -> (Vec<proc_macro2::TokenStream>, Vec<proc_macro2::TokenStream>) {
    let mut specs = vec![];
    let mut inits = vec![];
    for f in &fields.named {
        let id = f.ident.as_ref().unwrap();
        let o = opts(&f.attrs, &id.to_string());
        let ty = &f.ty;
        let tys = quote!(#ty).to_string();
        if o.skip {
            inits.push(quote!(#id: ::std::default::Default::default()));
            continue;
        }
        let key = id.to_string();
        let long = match &o.long {
            Some(l) => quote!(Some(#l)),
            None => quote!(None),
        };
        let short = match o.short {
            Some(c) => quote!(Some(#c)),
            None => quote!(None),
        };
        let sub = o.sub;
        let flag = tys == "bool" || o.count;
        let many = tys.starts_with("Vec");
        specs.push(quote!(::clap::Spec { key: #key, long: #long, short: #short, flag: #flag, many: #many, sub: #sub }));
        let default = match &o.default {
            Some(d) => quote!(Some(#d)),
            None => quote!(None),
        };
        inits.push(if o.sub {
            quote!(#id: ::clap::subcommand(&m, #key))
        } else if o.count {
            quote!(#id: m.count(#key) as #ty)
        } else if tys == "bool" {
            quote!(#id: m.count(#key) > 0)
        } else if tys.starts_with("Option") {
            let conv = if o.value_enum { quote!(::clap::value_enum(#key, &v)) } else { quote!(::clap::value(#key, &v)) };
            quote!(#id: m.get(#key, #default).map(|v| #conv))
        } else if many {
            quote!(#id: m.all(#key).iter().map(|v| ::clap::value(#key, v)).collect())
        } else {
            let conv = if o.value_enum { quote!(::clap::value_enum(#key, &v)) } else { quote!(::clap::value(#key, &v)) };
            quote!(#id: { let v = m.need(#key, #default); #conv })
        });
    }
    (specs, inits)
}

fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let body = match &input.data {
        Data::Struct(s) => {
            let Fields::Named(f) = &s.fields else { panic!("named fields expected") };
            let (specs, inits) = fields(f);
            quote! {
                let m = ::clap::Matches::parse(&[#(#specs),*], args);
                #name { #(#inits),* }
            }
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let text = opts(&v.attrs, &id.to_string()).long.unwrap_or_else(|| kebab(&id.to_string()));
                match &v.fields {
                    Fields::Named(f) => {
                        let (specs, inits) = fields(f);
                        quote!(Some(#text) => { let m = ::clap::Matches::parse(&[#(#specs),*], args); #name::#id { #(#inits),* } })
                    }
                    Fields::Unit => quote!(Some(#text) => #name::#id),
                    Fields::Unnamed(_) => quote!(Some(#text) => #name::#id(::clap::Parser::from_args(args))),
                }
            });
            quote! {
                let mut args = args;
                let which = if args.is_empty() { None } else { Some(args.remove(0)) };
                match which.as_ref().and_then(|w| w.to_str()) {
                    #(#arms,)*
                    _ => ::clap::no_subcommand(which.as_ref()),
                }
            }
        }
        _ => panic!("struct or enum expected"),
    };
    quote! {
        impl ::clap::Parser for #name {
            fn from_args(args: Vec<::std::ffi::OsString>) -> Self {
                #body
            }
        }
    }
    .into()
}

#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(input: TokenStream) -> TokenStream {
    derive(input)
}

#[proc_macro_derive(Subcommand, attributes(clap, arg, command))]
pub fn subcommand(input: TokenStream) -> TokenStream {
    derive(input)
}

#[proc_macro_derive(Args, attributes(clap, arg, command))]
pub fn args(input: TokenStream) -> TokenStream {
    derive(input)
}

#[proc_macro_derive(ValueEnum, attributes(clap, value))]
pub fn value_enum(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("enum expected") };
    let arms = e.variants.iter().map(|v| {
        let id = &v.ident;
        let o = opts(&v.attrs, &id.to_string());
        let text = o.long.unwrap_or_else(|| kebab(&id.to_string()));
        quote!(#text => Some(#name::#id))
    });
    quote! {
        impl ::clap::ValueEnum for #name {
            fn from_text(s: &str) -> Option<Self> {
                match s { #(#arms,)* _ => None }
            }
        }
    }
    .into()
}
