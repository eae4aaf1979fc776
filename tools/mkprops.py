#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
D="src/derive/"
p("C01","Derived iterator traits act exactly like the iterator in the active variant",
 "For an enum whose Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen or Extend implementation was generated, every method call returns exactly what the same call on the value held by the active variant returns, leaves that value in the same state, and calls no other method and no other variant. This covers the methods that the standard library provides by default but the macro overrides (size_hint, count, last, fold, collect, find, rfold, ... ), with the arguments passed through unchanged. Item types and bounds are those of the variants, so equal-item variants are always accepted.",
 ["inputs","configurations"],"all states of the payload, all arguments and results, all variants of the enum, every overridden method",
 "Tests only compile the impls or drain one iterator; no test compares each method of each variant with the payload, and the expansion snapshots are not run.",
 [D+"core/iter.rs"],[("trait signatures handed to the delegating derive","src/derive/core/iter.rs"),("match self { Variant(x) => <_ as Trait>::method(x, ..) }","derive_utils::derive_trait")],["generated trait impls of an enum with instrumented variants"])
p("C02","Derived fmt, convert, ops and Error traits act like the active variant",
 "For generated Debug, Display, Pointer, Binary, Octal, hex and exp formatting, fmt::Write, AsRef, AsMut, Deref, DerefMut, Index, IndexMut, RangeBounds, Fn, FnMut, FnOnce and Error implementations, each call does exactly what the same call on the active variant's value does: same arguments (including the formatter and its flags), same result or same returned place, and no other effect. A generated Error reports the active variant's error as its source.",
 ["inputs","configurations"],"all payload values, arguments and results, all variants, every method of those traits",
 "Tests print a few values; most of these impls are only compiled, never called.",
 [D+"core/fmt.rs",D+"core/convert.rs",D+"core/ops.rs",D+"std/error.rs"],[("trait signatures handed to the delegating derive","src/derive/core/{fmt,convert,ops}.rs"),("hand-built source()","src/derive/std/error.rs")],["generated trait impls"])
p("C03","Derived std I/O traits act exactly like the active variant's reader or writer",
 "For generated Read, BufRead, Write and Seek implementations, every call (plain, vectored, to-end, to-string, exact, all, formatted, flush, fill/consume, until, line, seek) is performed by exactly one call of the same method on the active variant's value with the same buffer, amount, position or delimiter; the result, including errors and short counts, and all bytes are the payload's.",
 ["inputs","configurations"],"all payload states, buffers, results and errors, all variants, every forwarded method",
 "No test performs I/O through a generated enum with more than one behaviour; the snapshots that show which methods are forwarded are not run.",
 [D+"std/io.rs"],[("trait signatures handed to the delegating derive","src/derive/std/io.rs")],["generated trait impls"])
p("C04","Derived polling traits poll the active variant's value in place",
 "For generated Future, Coroutine, futures 0.3 Stream/Sink/AsyncRead/AsyncWrite/AsyncSeek/AsyncBufRead, tokio 0.2/0.3/1 async I/O and http_body Body implementations, each call is exactly one call of the same method on the active variant's value, with the same task context and arguments and the payload's result returned unchanged. The value is reached through a pinned reference to the place where it lives inside the enum: it is never moved, copied or replaced between calls.",
 ["inputs","histories","configurations"],"all payload states, results and arguments, all variants, every method, every sequence of polls",
 "The run-pass tests of these traits only compile the impls; nothing polls them.",
 [D+"core/future.rs",D+"core/ops.rs",D+"external/futures03.rs",D+"external/tokio02.rs",D+"external/tokio03.rs",D+"external/tokio1.rs",D+"external/http_body1.rs"],[("pinned projection in the delegating derive","derive_utils::EnumImpl and the hand-written bodies in futures03.rs / future.rs")],["generated trait impls polled with an address-recording payload"])
p("C05","Derived futures 0.1, tokio 0.1, rayon and serde traits forward faithfully",
 "For generated futures 0.1 Future/Stream/Sink, tokio 0.1 AsyncRead/AsyncWrite, rayon ParallelIterator/IndexedParallelIterator/ParallelExtend and serde Serialize implementations, every method call is exactly one call of the same method on the active variant's value with unchanged arguments, and its result (including NotReady/WouldBlock, length hints and errors) is returned unchanged. In particular serializing the enum yields exactly the serialization of the value, with no variant name.",
 ["inputs","configurations"],"all payload states, arguments and results, all variants, every forwarded method",
 "The run-pass tests of these traits only compile the impls.",
 [D+"external/futures01.rs",D+"external/tokio01.rs",D+"external/rayon.rs",D+"external/serde.rs"],[("trait signatures handed to the delegating derive","src/derive/external/*.rs")],["generated trait impls"])
p("C06","Pinned-projection enums stay sound: no Drop, Unpin only if all fields are",
 "Whenever an implementation was generated that reaches a variant's value through a pinned reference, the enum is Unpin exactly if every variant's field type is Unpin, a user-written Unpin impl for it is rejected by the compiler, and a user-written Drop impl for it is rejected by the compiler. Enums without such an implementation are not restricted in this way.",
 ["programs","configurations"],"every pinned trait, every combination of Unpin and non-Unpin field types, generic and concrete fields, any number of variants",
 "Tests only compile correct uses; the compile-fail tests are not part of the suite that runs, and absence of an Unpin impl is never tested.",
 ["src/enum_derive.rs",D+"core/future.rs",D+"external/futures03.rs",D+"external/tokio1.rs"],[("needs_pin_projection flag","src/enum_derive.rs DeriveContext"),("conditional Unpin impl and MustNotImplDrop","src/enum_derive.rs expand")],["trait solver on the generated enum"])
p("C07","Every requested trait and its required supertraits are implemented exactly once",
 "For every list of distinct supported trait names given to #[enum_derive] or #[auto_enum], in any order and using any aliases, the enum implements each requested trait and each supertrait it depends on exactly once: a missing dependency is added, one that is already requested (under any alias) or already added is not added again, and nothing else is implemented. Hence such a list never produces conflicting or missing implementations.",
 ["inputs","configurations"],"all lists (order, subset, aliases) over the supported traits and every feature set",
 "Tests use about ten fixed lists; interactions between dependency, alias and order are not covered.",
 ["src/enum_derive.rs"],[("dependency table and alias lookup","src/enum_derive.rs get_trait_deps, exists_alias"),("fold over the arguments","src/enum_derive.rs expand")],["set of impls generated for the list"])
p("C08","Unsupported traits go to #[derive] unchanged and the enum item is preserved",
 "A trait path that #[enum_derive] does not support (or whose feature is off) is passed unchanged, exactly once and in order to #[derive] on the enum, whatever its path form; supported ones are never passed. The enum item itself (attributes, visibility, name, generics, where clause, variants, their order and field types) is emitted unchanged, and each supported name or alias, including paths written with spaces, selects the implementation of precisely that trait.",
 ["inputs","configurations"],"all trait paths, all feature sets, all enum items with one unnamed field per variant",
 "Tests pass a handful of std derives; no test looks at what is emitted.",
 ["src/enum_derive.rs","src/derive/mod.rs"],[("name lookup","src/enum_derive.rs get_derive"),("derive list","src/enum_derive.rs expand")],["token output of #[enum_derive]"])
p("C09","Transpose converts between enum-of-containers and container-of-enum faithfully",
 "The generated transpose methods map every value to the value with the two layers swapped: variant k holding Some(x) becomes Some(variant k of x), None becomes None; for Result both sides stay in their variant; transpose_ok turns variant k holding Ok(x) into Ok(variant k of x) and passes Err(e) through, transpose_err symmetrically; the variant and the payload are never changed. Enums whose fields are not distinct type parameters are rejected at compile time.",
 ["inputs"],"all enums of distinct generic parameters, all variants, all payload values of every layer shape",
 "Tests call each method at most once with one value.",
 [D+"ty_impls/transpose.rs"],[("generated inherent impls","src/derive/ty_impls/transpose.rs")],["transpose, transpose_ok, transpose_err"])
p("C10","Every value-producing branch of if/match is wrapped in its own variant, in place",
 "For an expression, let binding or function tail under #[auto_enum(Traits)], each value-returning branch of the if/else-if/else or match found there (searching through blocks, unsafe blocks, parentheses and method-call receivers) is wrapped exactly once in a variant used nowhere else, and no other expression is wrapped. The resulting program evaluates the same expressions in the same order and yields the same values as the plain program would if all branches already had one type.",
 ["programs","inputs"],"all syntax trees built from those constructs, any depth, number of branches and enclosing code",
 "Tests run about 60 fixed programs; branch shapes, nesting and attribute placements are unbounded.",
 ["src/auto_enum/expr.rs","src/auto_enum/context.rs","src/utils.rs","src/auto_enum/mod.rs"],[("recursive search for branches","src/auto_enum/expr.rs child_expr, visit_last_expr_match, visit_last_expr_if"),("variant counter","src/auto_enum/context.rs Builder::next_expr")],["token output of #[auto_enum]","behaviour of the annotated program"])
p("C11","Exactly the breaks that leave the annotated loop are wrapped",
 "When the value branch is a `loop`, the value of every `break` that leaves that loop (unlabelled outside inner loops, or carrying its label at any depth) is wrapped exactly once in its own variant, including `break` without a value. Breaks of inner or outer loops, of labelled blocks, of a shadowing label, and anything inside closures, async blocks, nested items or #[never] expressions are left alone.",
 ["programs"],"all loop bodies: any nesting of loops, labels, breaks, closures, async blocks and items",
 "Tests contain three loop programs.",
 ["src/auto_enum/expr.rs"],[("loop visitor with label comparison","src/auto_enum/expr.rs visit_last_expr_loop")],["token output of #[auto_enum]"])
p("C12","Exactly the returns of the annotated function or closure are wrapped",
 "In a function returning impl Trait, or a directly annotated closure that does not use `?` twice or more, every `return` that leaves that function or closure is wrapped exactly once in its own variant (a bare `return` wraps unit). Returns inside inner closures, async blocks or nested items, a return that itself carries #[never], or one whose value is a marker macro or #[nested] are left alone; for any other return type no return is touched.",
 ["programs"],"all function and closure bodies and return positions, all nestings of closures, async blocks and items",
 "Tests contain a few early returns; scopes are not explored.",
 ["src/auto_enum/visitor.rs","src/auto_enum/mod.rs"],[("scope flags","src/auto_enum/visitor.rs Scope::check_expr"),("visit_return, visit_fn","src/auto_enum/visitor.rs"),("mode selection","src/auto_enum/mod.rs expand_parent_item_fn, expand_expr")],["token output of #[auto_enum]"])
p("C13","The ? operator is desugared so that each error goes to its own variant",
 "In a function returning Result<T, impl Trait> (or a directly annotated closure) that uses `?` at least twice, every `?` of that scope becomes: take the Ok value, otherwise return Err of the error in a variant of its own, the operand being evaluated exactly once; branch values are then not wrapped. `?` inside inner closures, async blocks, try blocks or nested items, one that itself carries #[never], or on a marker macro is left alone, and with fewer than two `?` none is touched.",
 ["programs","inputs"],"all function and closure bodies, all positions and nestings of ?",
 "Tests contain a handful of ? programs; error paths are executed once or not at all.",
 ["src/auto_enum/visitor.rs","src/auto_enum/mod.rs"],[("visit_try, visit_fn","src/auto_enum/visitor.rs"),("mode selection","src/auto_enum/mod.rs")],["token output of #[auto_enum]","behaviour of the annotated function"])
p("C14","Branches that yield no value are skipped, all others never are",
 "A branch gets no variant exactly if it ends in panic!, unreachable! (also as std:: or core:: paths), return, break, continue, None?, Err(..)?, the marker macro of its scope, an item definition, an expression carrying #[never] or its own #[auto_enum], a match all of whose arms are such, or such an expression inside a block, unsafe block, parentheses, let initializer, or method receiver, or if it is (or its value expression, with everything before it, contains) a #[nested] one. Any other branch, including look-alike paths such as foo::panic!, Some(x)?, or Err with several arguments, is wrapped.",
 ["programs"],"all branch bodies over the expression grammar",
 "Tests use each skip form about once; look-alikes and combinations are not covered, and wrongly skipping or wrapping a diverging branch often still compiles.",
 ["src/auto_enum/expr.rs","src/utils.rs"],[("is_unreachable and helpers","src/auto_enum/expr.rs"),("path_eq","src/utils.rs")],["token output of #[auto_enum]"])
p("C15","#[nested] branches feed the same enum, once per inner branch",
 "A match arm, if/else branch tail, let binding or expression marked #[nested], at any depth, is not wrapped itself; instead each of its own value branches is wrapped exactly once, in fresh variants of the same enclosing #[auto_enum] enum, by the same rules as for a top-level branch. The #[nested] attribute is removed, and those inside another #[auto_enum] scope belong to that scope.",
 ["programs"],"all placements and nestings of #[nested] on arms, branches, lets and expressions",
 "Tests contain about fifteen fixed nestings.",
 ["src/auto_enum/visitor.rs","src/auto_enum/expr.rs"],[("visit_nested, find_nested","src/auto_enum/visitor.rs"),("skip closures","src/auto_enum/expr.rs")],["token output of #[auto_enum]"])
p("C16","Marker macros mark exactly the values of their own #[auto_enum] scope",
 "Each marker!(expr) (or its custom name given by `marker = name`) in expression position in the scope of an #[auto_enum] is replaced by expr wrapped in its own variant of that scope's enum, keeping outer attributes, and counts as a branch that is not wrapped again. With nested scopes a marker belongs to the innermost scope that uses that name, other macros are untouched, and a scope that reuses a custom name of an enclosing scope is rejected.",
 ["programs"],"all placements of markers and all nestings of scopes with default or custom names",
 "Tests contain a handful of markers in at most two nested scopes.",
 ["src/auto_enum/visitor.rs","src/auto_enum/context.rs"],[("visit_marker_macro","src/auto_enum/visitor.rs"),("is_marker_macro, is_marker_macro_exact, marker list","src/auto_enum/context.rs")],["token output of #[auto_enum]"])
p("C17","Apart from variant wrapping the annotated code is emitted unchanged",
 "Removing the generated enum and un-wrapping the generated variant constructors (and un-desugaring ?) from the output gives back the input exactly: every statement, expression, pattern, type, attribute, comment-free token and item is kept in order, except that auto_enum's own helper attributes (auto_enum, nested, never) are removed in the scope where they apply. Nested items and other attributes are never touched.",
 ["programs"],"all accepted inputs: functions, let statements, expressions, with any surrounding code and attributes",
 "Tests only observe the run-time result of fixed programs; dropped attributes, reordered or lost code elsewhere would often go unnoticed.",
 ["src/auto_enum/mod.rs","src/auto_enum/visitor.rs","src/auto_enum/expr.rs","src/utils.rs"],[("replace_expr, replace_block","src/utils.rs"),("attribute removal","src/auto_enum/visitor.rs find_remove_attrs"),("build_expr, insertion of the enum","src/auto_enum/mod.rs")],["token output of #[auto_enum]"])
p("C18","Misuse is always a compile error and never a panic or silent change",
 "Whenever an annotated item cannot be handled - fewer than two branches, an if without else as value branch, an unsupported item, empty function or uninitialized let, malformed attribute or marker arguments, duplicate marker options, #[rec], #[nested] or #[never] with arguments - the macro emits a compile error, also when the fault lies in a nested scope. It never panics and never emits code with a helper attribute or a branch silently dropped.",
 ["inputs","programs"],"all inputs of the attributes, well formed or not, at any nesting of scopes",
 "The compile-fail tests are not among the tests that run, and cover one fault at a time.",
 ["src/auto_enum/context.rs","src/auto_enum/mod.rs","src/auto_enum/visitor.rs","src/enum_derive.rs"],[("error accumulation and check","src/auto_enum/context.rs error, check, join_child"),("branch count check","src/auto_enum/context.rs build")],["compile_error! in the output"])
p("C19","Each scope gets one enum with exactly the variants it uses, deterministically",
 "The output of an #[auto_enum] scope with two or more branches contains exactly one enum definition, visible at every use, whose variants are exactly the constructors used in that scope, each declared once and used at exactly one place, one type parameter per variant, carrying exactly the requested traits. Its name and the whole output depend only on the annotated code and arguments (same input, same output), and distinct nested scopes never share an enum.",
 ["programs","histories"],"all inputs, repeated and interleaved expansions, nested scopes",
 "Tests expand each program once and never look at names or counts.",
 ["src/auto_enum/context.rs","src/auto_enum/mod.rs"],[("Builder and hash","src/auto_enum/context.rs"),("build, build_expr","src/auto_enum/mod.rs")],["token output of #[auto_enum]"])
p("C20","Type analysis collects exactly the supported traits of the impl Trait types",
 "With type analysis enabled, the traits implemented by the generated enum are those given as arguments plus every supported trait named in an impl Trait of the function's return type or the let binding's type, however nested, qualified one level (such as fmt::Debug) or generic, each once; unsupported bounds and lifetimes add nothing. An impl Trait type of a let binding is removed from the emitted binding exactly if it contributed a trait, and all other types are kept.",
 ["programs","configurations"],"all return and binding types, any nesting of impl Trait, any argument list",
 "Tests cover two signatures.",
 ["src/auto_enum/type_analysis.rs","src/auto_enum/mod.rs"],[("collect_impl_trait","src/auto_enum/type_analysis.rs"),("use in expand_parent_local / expand_parent_item_fn","src/auto_enum/mod.rs")],["trait list of the generated enum"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
