#!/usr/bin/env python3
"""Writes contracts/syn.vrs: which types of syn and proc_macro2 the verifier sees through."""
import os
toks = "Bracket Brace Paren Eq Async Move Await Dot Break Let Semi Const Continue For In Loop While If Else Match Return Question Try Unsafe Yield Comma FatArrow And Mut As Static Or Group Underscore Colon PathSep Not Pound RArrow Fn Dyn Impl Lt Gt Plus DotDot".split()
opaque = """proc_macro2::TokenStream proc_macro2::Ident proc_macro2::Span syn::Error syn::MacroDelimiter syn::AttrStyle syn::Lit syn::Member syn::BinOp syn::UnOp syn::RangeLimits
syn::BoundLifetimes syn::FieldValue syn::QSelf syn::MetaNameValue syn::ParenthesizedGenericArguments syn::Visibility syn::Abi syn::Generics syn::FnArg syn::Variadic syn::TypeParamBound
syn::ExprRawAddr syn::ItemConst syn::ItemEnum syn::ItemExternCrate syn::ItemForeignMod syn::ItemImpl syn::ItemMacro syn::ItemMod syn::ItemStatic syn::ItemStruct syn::ItemTrait syn::ItemTraitAlias syn::ItemType syn::ItemUnion syn::ItemUse
syn::TypeArray syn::TypeBareFn syn::TypeGroup syn::TypeInfer syn::TypeMacro syn::TypeNever syn::TypeParen syn::TypePtr syn::TypeReference syn::TypeSlice syn::TypeTraitObject syn::TypeTuple
syn::PatIdent syn::PatOr syn::PatParen syn::PatReference syn::PatRest syn::PatSlice syn::PatStruct syn::PatTuple syn::PatTupleStruct syn::PatWild
syn::AssocType syn::AssocConst syn::Constraint""".split()
trans = """Path PathSegment PathArguments AngleBracketedGenericArguments GenericArgument Macro Attribute Meta MetaList Label Lifetime Item ItemFn Signature ReturnType Type TypeImplTrait TypePath Pat PatType
Expr ExprArray ExprAssign ExprAsync ExprAwait ExprBinary ExprBlock ExprBreak ExprCall ExprCast ExprClosure ExprConst ExprContinue ExprField ExprForLoop ExprGroup ExprIf ExprIndex ExprInfer ExprLet ExprLit ExprLoop ExprMacro ExprMatch ExprMethodCall ExprParen ExprPath ExprRange ExprReference ExprRepeat ExprReturn ExprStruct ExprTry ExprTryBlock ExprTuple ExprUnary ExprUnsafe ExprWhile ExprYield
Block Stmt Local LocalInit StmtMacro Arm Index LocalInit""".split()
out = """=== prelude
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)]
pub struct ExPunctuated<T, P>(syn::punctuated::Punctuated<T, P>);
"""
for o in opaque:
    out += f"#[verifier::external_type_specification] #[verifier::external_body] pub struct Ex{o.split('::')[-1]}({o});\n"
for t in toks:
    out += f"#[verifier::external_type_specification] #[verifier::external_body] pub struct ExT{t}(syn::token::{t});\n"
for t in dict.fromkeys(trans):
    out += f"#[verifier::external_type_specification] pub struct Ex{t}(syn::{t});\n"
E = [t[4:] for t in dict.fromkeys(trans) if t.startswith("Expr") and t not in ("Expr",)]
out += "/// The attributes of an expression: every kind syn 2 has but Verbatim (and kinds it may add).\npub open spec fn e_attrs(e: Expr) -> Seq<Attribute> { match e {\n"
out += "".join(f"    Expr::{k}(x) => x.attrs@,\n" for k in E) + "    _ => Seq::empty(),\n} }\n"
out += "pub open spec fn e_with_attrs(e: Expr, v: Vec<Attribute>) -> Expr { match e {\n"
out += "".join(f"    Expr::{k}(x) => Expr::{k}(Expr{k} {{ attrs: v, ..x }}),\n" for k in E) + "    _ => e,\n} }\n"
out += "pub open spec fn e_has_attrs(e: Expr) -> bool { match e {\n" + "".join(f"    Expr::{k}(_) => true,\n" for k in E) + "    _ => false,\n} }\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts/syn.vrs"), "w").write(out)
