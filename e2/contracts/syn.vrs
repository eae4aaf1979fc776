=== prelude
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)]
pub struct ExPunctuated<T, P>(syn::punctuated::Punctuated<T, P>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTokenStream(proc_macro2::TokenStream);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIdent(proc_macro2::Ident);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSpan(proc_macro2::Span);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExError(syn::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMacroDelimiter(syn::MacroDelimiter);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAttrStyle(syn::AttrStyle);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExLit(syn::Lit);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMember(syn::Member);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBinOp(syn::BinOp);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUnOp(syn::UnOp);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExRangeLimits(syn::RangeLimits);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBoundLifetimes(syn::BoundLifetimes);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFieldValue(syn::FieldValue);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExQSelf(syn::QSelf);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMetaNameValue(syn::MetaNameValue);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParenthesizedGenericArguments(syn::ParenthesizedGenericArguments);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVisibility(syn::Visibility);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAbi(syn::Abi);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGenerics(syn::Generics);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFnArg(syn::FnArg);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVariadic(syn::Variadic);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeParamBound(syn::TypeParamBound);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExExprRawAddr(syn::ExprRawAddr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemConst(syn::ItemConst);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemEnum(syn::ItemEnum);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemExternCrate(syn::ItemExternCrate);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemForeignMod(syn::ItemForeignMod);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemImpl(syn::ItemImpl);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemMacro(syn::ItemMacro);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemMod(syn::ItemMod);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemStatic(syn::ItemStatic);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemStruct(syn::ItemStruct);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemTrait(syn::ItemTrait);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemTraitAlias(syn::ItemTraitAlias);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemType(syn::ItemType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemUnion(syn::ItemUnion);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExItemUse(syn::ItemUse);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeArray(syn::TypeArray);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeBareFn(syn::TypeBareFn);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeGroup(syn::TypeGroup);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeInfer(syn::TypeInfer);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeMacro(syn::TypeMacro);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeNever(syn::TypeNever);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeParen(syn::TypeParen);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypePtr(syn::TypePtr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeReference(syn::TypeReference);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeSlice(syn::TypeSlice);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeTraitObject(syn::TypeTraitObject);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeTuple(syn::TypeTuple);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatIdent(syn::PatIdent);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatOr(syn::PatOr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatParen(syn::PatParen);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatReference(syn::PatReference);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatRest(syn::PatRest);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatSlice(syn::PatSlice);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatStruct(syn::PatStruct);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatTuple(syn::PatTuple);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatTupleStruct(syn::PatTupleStruct);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPatWild(syn::PatWild);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAssocType(syn::AssocType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAssocConst(syn::AssocConst);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExConstraint(syn::Constraint);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTBracket(syn::token::Bracket);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTBrace(syn::token::Brace);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTParen(syn::token::Paren);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTEq(syn::token::Eq);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTAsync(syn::token::Async);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTMove(syn::token::Move);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTAwait(syn::token::Await);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTDot(syn::token::Dot);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTBreak(syn::token::Break);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTLet(syn::token::Let);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTSemi(syn::token::Semi);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTConst(syn::token::Const);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTContinue(syn::token::Continue);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTFor(syn::token::For);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTIn(syn::token::In);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTLoop(syn::token::Loop);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTWhile(syn::token::While);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTIf(syn::token::If);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTElse(syn::token::Else);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTMatch(syn::token::Match);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTReturn(syn::token::Return);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTQuestion(syn::token::Question);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTTry(syn::token::Try);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTUnsafe(syn::token::Unsafe);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTYield(syn::token::Yield);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTComma(syn::token::Comma);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTFatArrow(syn::token::FatArrow);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTAnd(syn::token::And);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTMut(syn::token::Mut);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTAs(syn::token::As);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTStatic(syn::token::Static);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTOr(syn::token::Or);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTGroup(syn::token::Group);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTUnderscore(syn::token::Underscore);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTColon(syn::token::Colon);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPathSep(syn::token::PathSep);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTNot(syn::token::Not);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPound(syn::token::Pound);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTRArrow(syn::token::RArrow);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTFn(syn::token::Fn);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTDyn(syn::token::Dyn);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTImpl(syn::token::Impl);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTLt(syn::token::Lt);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTGt(syn::token::Gt);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPlus(syn::token::Plus);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTDotDot(syn::token::DotDot);
#[verifier::external_type_specification] pub struct ExPath(syn::Path);
#[verifier::external_type_specification] pub struct ExPathSegment(syn::PathSegment);
#[verifier::external_type_specification] pub struct ExPathArguments(syn::PathArguments);
#[verifier::external_type_specification] pub struct ExAngleBracketedGenericArguments(syn::AngleBracketedGenericArguments);
#[verifier::external_type_specification] pub struct ExGenericArgument(syn::GenericArgument);
#[verifier::external_type_specification] pub struct ExMacro(syn::Macro);
#[verifier::external_type_specification] pub struct ExAttribute(syn::Attribute);
#[verifier::external_type_specification] pub struct ExMeta(syn::Meta);
#[verifier::external_type_specification] pub struct ExMetaList(syn::MetaList);
#[verifier::external_type_specification] pub struct ExLabel(syn::Label);
#[verifier::external_type_specification] pub struct ExLifetime(syn::Lifetime);
#[verifier::external_type_specification] pub struct ExItem(syn::Item);
#[verifier::external_type_specification] pub struct ExItemFn(syn::ItemFn);
#[verifier::external_type_specification] pub struct ExSignature(syn::Signature);
#[verifier::external_type_specification] pub struct ExReturnType(syn::ReturnType);
#[verifier::external_type_specification] pub struct ExType(syn::Type);
#[verifier::external_type_specification] pub struct ExTypeImplTrait(syn::TypeImplTrait);
#[verifier::external_type_specification] pub struct ExTypePath(syn::TypePath);
#[verifier::external_type_specification] pub struct ExPat(syn::Pat);
#[verifier::external_type_specification] pub struct ExPatType(syn::PatType);
#[verifier::external_type_specification] pub struct ExExpr(syn::Expr);
#[verifier::external_type_specification] pub struct ExExprArray(syn::ExprArray);
#[verifier::external_type_specification] pub struct ExExprAssign(syn::ExprAssign);
#[verifier::external_type_specification] pub struct ExExprAsync(syn::ExprAsync);
#[verifier::external_type_specification] pub struct ExExprAwait(syn::ExprAwait);
#[verifier::external_type_specification] pub struct ExExprBinary(syn::ExprBinary);
#[verifier::external_type_specification] pub struct ExExprBlock(syn::ExprBlock);
#[verifier::external_type_specification] pub struct ExExprBreak(syn::ExprBreak);
#[verifier::external_type_specification] pub struct ExExprCall(syn::ExprCall);
#[verifier::external_type_specification] pub struct ExExprCast(syn::ExprCast);
#[verifier::external_type_specification] pub struct ExExprClosure(syn::ExprClosure);
#[verifier::external_type_specification] pub struct ExExprConst(syn::ExprConst);
#[verifier::external_type_specification] pub struct ExExprContinue(syn::ExprContinue);
#[verifier::external_type_specification] pub struct ExExprField(syn::ExprField);
#[verifier::external_type_specification] pub struct ExExprForLoop(syn::ExprForLoop);
#[verifier::external_type_specification] pub struct ExExprGroup(syn::ExprGroup);
#[verifier::external_type_specification] pub struct ExExprIf(syn::ExprIf);
#[verifier::external_type_specification] pub struct ExExprIndex(syn::ExprIndex);
#[verifier::external_type_specification] pub struct ExExprInfer(syn::ExprInfer);
#[verifier::external_type_specification] pub struct ExExprLet(syn::ExprLet);
#[verifier::external_type_specification] pub struct ExExprLit(syn::ExprLit);
#[verifier::external_type_specification] pub struct ExExprLoop(syn::ExprLoop);
#[verifier::external_type_specification] pub struct ExExprMacro(syn::ExprMacro);
#[verifier::external_type_specification] pub struct ExExprMatch(syn::ExprMatch);
#[verifier::external_type_specification] pub struct ExExprMethodCall(syn::ExprMethodCall);
#[verifier::external_type_specification] pub struct ExExprParen(syn::ExprParen);
#[verifier::external_type_specification] pub struct ExExprPath(syn::ExprPath);
#[verifier::external_type_specification] pub struct ExExprRange(syn::ExprRange);
#[verifier::external_type_specification] pub struct ExExprReference(syn::ExprReference);
#[verifier::external_type_specification] pub struct ExExprRepeat(syn::ExprRepeat);
#[verifier::external_type_specification] pub struct ExExprReturn(syn::ExprReturn);
#[verifier::external_type_specification] pub struct ExExprStruct(syn::ExprStruct);
#[verifier::external_type_specification] pub struct ExExprTry(syn::ExprTry);
#[verifier::external_type_specification] pub struct ExExprTryBlock(syn::ExprTryBlock);
#[verifier::external_type_specification] pub struct ExExprTuple(syn::ExprTuple);
#[verifier::external_type_specification] pub struct ExExprUnary(syn::ExprUnary);
#[verifier::external_type_specification] pub struct ExExprUnsafe(syn::ExprUnsafe);
#[verifier::external_type_specification] pub struct ExExprWhile(syn::ExprWhile);
#[verifier::external_type_specification] pub struct ExExprYield(syn::ExprYield);
#[verifier::external_type_specification] pub struct ExBlock(syn::Block);
#[verifier::external_type_specification] pub struct ExStmt(syn::Stmt);
#[verifier::external_type_specification] pub struct ExLocal(syn::Local);
#[verifier::external_type_specification] pub struct ExLocalInit(syn::LocalInit);
#[verifier::external_type_specification] pub struct ExStmtMacro(syn::StmtMacro);
#[verifier::external_type_specification] pub struct ExArm(syn::Arm);
#[verifier::external_type_specification] pub struct ExIndex(syn::Index);
/// The attributes of an expression: every kind syn 2 has but Verbatim (and kinds it may add).
pub open spec fn e_attrs(e: Expr) -> Seq<Attribute> { match e {
    Expr::Array(x) => x.attrs@,
    Expr::Assign(x) => x.attrs@,
    Expr::Async(x) => x.attrs@,
    Expr::Await(x) => x.attrs@,
    Expr::Binary(x) => x.attrs@,
    Expr::Block(x) => x.attrs@,
    Expr::Break(x) => x.attrs@,
    Expr::Call(x) => x.attrs@,
    Expr::Cast(x) => x.attrs@,
    Expr::Closure(x) => x.attrs@,
    Expr::Const(x) => x.attrs@,
    Expr::Continue(x) => x.attrs@,
    Expr::Field(x) => x.attrs@,
    Expr::ForLoop(x) => x.attrs@,
    Expr::Group(x) => x.attrs@,
    Expr::If(x) => x.attrs@,
    Expr::Index(x) => x.attrs@,
    Expr::Infer(x) => x.attrs@,
    Expr::Let(x) => x.attrs@,
    Expr::Lit(x) => x.attrs@,
    Expr::Loop(x) => x.attrs@,
    Expr::Macro(x) => x.attrs@,
    Expr::Match(x) => x.attrs@,
    Expr::MethodCall(x) => x.attrs@,
    Expr::Paren(x) => x.attrs@,
    Expr::Path(x) => x.attrs@,
    Expr::Range(x) => x.attrs@,
    Expr::Reference(x) => x.attrs@,
    Expr::Repeat(x) => x.attrs@,
    Expr::Return(x) => x.attrs@,
    Expr::Struct(x) => x.attrs@,
    Expr::Try(x) => x.attrs@,
    Expr::TryBlock(x) => x.attrs@,
    Expr::Tuple(x) => x.attrs@,
    Expr::Unary(x) => x.attrs@,
    Expr::Unsafe(x) => x.attrs@,
    Expr::While(x) => x.attrs@,
    Expr::Yield(x) => x.attrs@,
    _ => Seq::empty(),
} }
pub open spec fn e_with_attrs(e: Expr, v: Vec<Attribute>) -> Expr { match e {
    Expr::Array(x) => Expr::Array(ExprArray { attrs: v, ..x }),
    Expr::Assign(x) => Expr::Assign(ExprAssign { attrs: v, ..x }),
    Expr::Async(x) => Expr::Async(ExprAsync { attrs: v, ..x }),
    Expr::Await(x) => Expr::Await(ExprAwait { attrs: v, ..x }),
    Expr::Binary(x) => Expr::Binary(ExprBinary { attrs: v, ..x }),
    Expr::Block(x) => Expr::Block(ExprBlock { attrs: v, ..x }),
    Expr::Break(x) => Expr::Break(ExprBreak { attrs: v, ..x }),
    Expr::Call(x) => Expr::Call(ExprCall { attrs: v, ..x }),
    Expr::Cast(x) => Expr::Cast(ExprCast { attrs: v, ..x }),
    Expr::Closure(x) => Expr::Closure(ExprClosure { attrs: v, ..x }),
    Expr::Const(x) => Expr::Const(ExprConst { attrs: v, ..x }),
    Expr::Continue(x) => Expr::Continue(ExprContinue { attrs: v, ..x }),
    Expr::Field(x) => Expr::Field(ExprField { attrs: v, ..x }),
    Expr::ForLoop(x) => Expr::ForLoop(ExprForLoop { attrs: v, ..x }),
    Expr::Group(x) => Expr::Group(ExprGroup { attrs: v, ..x }),
    Expr::If(x) => Expr::If(ExprIf { attrs: v, ..x }),
    Expr::Index(x) => Expr::Index(ExprIndex { attrs: v, ..x }),
    Expr::Infer(x) => Expr::Infer(ExprInfer { attrs: v, ..x }),
    Expr::Let(x) => Expr::Let(ExprLet { attrs: v, ..x }),
    Expr::Lit(x) => Expr::Lit(ExprLit { attrs: v, ..x }),
    Expr::Loop(x) => Expr::Loop(ExprLoop { attrs: v, ..x }),
    Expr::Macro(x) => Expr::Macro(ExprMacro { attrs: v, ..x }),
    Expr::Match(x) => Expr::Match(ExprMatch { attrs: v, ..x }),
    Expr::MethodCall(x) => Expr::MethodCall(ExprMethodCall { attrs: v, ..x }),
    Expr::Paren(x) => Expr::Paren(ExprParen { attrs: v, ..x }),
    Expr::Path(x) => Expr::Path(ExprPath { attrs: v, ..x }),
    Expr::Range(x) => Expr::Range(ExprRange { attrs: v, ..x }),
    Expr::Reference(x) => Expr::Reference(ExprReference { attrs: v, ..x }),
    Expr::Repeat(x) => Expr::Repeat(ExprRepeat { attrs: v, ..x }),
    Expr::Return(x) => Expr::Return(ExprReturn { attrs: v, ..x }),
    Expr::Struct(x) => Expr::Struct(ExprStruct { attrs: v, ..x }),
    Expr::Try(x) => Expr::Try(ExprTry { attrs: v, ..x }),
    Expr::TryBlock(x) => Expr::TryBlock(ExprTryBlock { attrs: v, ..x }),
    Expr::Tuple(x) => Expr::Tuple(ExprTuple { attrs: v, ..x }),
    Expr::Unary(x) => Expr::Unary(ExprUnary { attrs: v, ..x }),
    Expr::Unsafe(x) => Expr::Unsafe(ExprUnsafe { attrs: v, ..x }),
    Expr::While(x) => Expr::While(ExprWhile { attrs: v, ..x }),
    Expr::Yield(x) => Expr::Yield(ExprYield { attrs: v, ..x }),
    _ => e,
} }
pub open spec fn e_has_attrs(e: Expr) -> bool { match e {
    Expr::Array(_) => true,
    Expr::Assign(_) => true,
    Expr::Async(_) => true,
    Expr::Await(_) => true,
    Expr::Binary(_) => true,
    Expr::Block(_) => true,
    Expr::Break(_) => true,
    Expr::Call(_) => true,
    Expr::Cast(_) => true,
    Expr::Closure(_) => true,
    Expr::Const(_) => true,
    Expr::Continue(_) => true,
    Expr::Field(_) => true,
    Expr::ForLoop(_) => true,
    Expr::Group(_) => true,
    Expr::If(_) => true,
    Expr::Index(_) => true,
    Expr::Infer(_) => true,
    Expr::Let(_) => true,
    Expr::Lit(_) => true,
    Expr::Loop(_) => true,
    Expr::Macro(_) => true,
    Expr::Match(_) => true,
    Expr::MethodCall(_) => true,
    Expr::Paren(_) => true,
    Expr::Path(_) => true,
    Expr::Range(_) => true,
    Expr::Reference(_) => true,
    Expr::Repeat(_) => true,
    Expr::Return(_) => true,
    Expr::Struct(_) => true,
    Expr::Try(_) => true,
    Expr::TryBlock(_) => true,
    Expr::Tuple(_) => true,
    Expr::Unary(_) => true,
    Expr::Unsafe(_) => true,
    Expr::While(_) => true,
    Expr::Yield(_) => true,
    _ => false,
} }
