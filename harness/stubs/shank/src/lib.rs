//! Offline stand-in for the `shank` derive macros (the git dependency is not
//! available). `ShankContext` generates the same `accounts` module that the
//! real macro does: a `Context` wrapper and one `<Variant>Accounts` struct per
//! variant, whose only runtime check is the number of accounts.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, ExprLit, Lit, Meta, Token};
use syn::punctuated::Punctuated;

#[proc_macro_derive(ShankInstruction, attributes(account, default_optional_accounts, args, idl_instruction))]
pub fn shank_instruction(_input: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(ShankContext, attributes(account))]
pub fn shank_context(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let data = match &input.data {
        Data::Enum(e) => e,
        _ => panic!("enum expected"),
    };
    let mut out = Vec::new();
    for v in &data.variants {
        let mut names: Vec<(usize, String)> = Vec::new();
        for a in &v.attrs {
            if !a.path().is_ident("account") {
                continue;
            }
            let items = a
                .parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .expect("account attr");
            let mut idx = names.len();
            let mut name = String::new();
            for e in items {
                match e {
                    Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => idx = i.base10_parse().unwrap(),
                    Expr::Assign(asg) => {
                        let k = match &*asg.left {
                            Expr::Path(p) => p.path.get_ident().unwrap().to_string(),
                            _ => String::new(),
                        };
                        if k == "name" {
                            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*asg.right {
                                name = s.value();
                            }
                        }
                    }
                    _ => {}
                }
            }
            names.push((idx, name));
        }
        let _ = Meta::require_path_only;
        names.sort();
        let n = names.len();
        let st = format_ident!("{}Accounts", v.ident);
        let fields: Vec<_> = names.iter().map(|(_, n)| format_ident!("{}", n)).collect();
        let idxs: Vec<usize> = names.iter().map(|(i, _)| *i).collect();
        let lt = if n == 0 { quote!() } else { quote!(<'a>) };
        let _ = &lt;
        out.push(quote! {
            pub struct #st<'a> { #( pub #fields: &'a AccountInfo, )* pub _p: core::marker::PhantomData<&'a ()> }
            impl<'a> #st<'a> {
                pub fn context(accounts: &'a [AccountInfo]) -> Result<Context<'a, Self>, ProgramError> {
                    if accounts.len() < #n {
                        return Err(ProgramError::NotEnoughAccountKeys);
                    }
                    Ok(Context {
                        accounts: Self { #( #fields: &accounts[#idxs], )* _p: core::marker::PhantomData },
                        remaining_accounts: &accounts[#n..],
                    })
                }
            }
        });
    }
    quote! {
        pub mod accounts {
            use super::*;
            pub struct Context<'a, T> {
                pub accounts: T,
                pub remaining_accounts: &'a [AccountInfo],
            }
            #(#out)*
        }
    }
    .into()
}
