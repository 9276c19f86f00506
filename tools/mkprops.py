#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
C='derive_builder_core/src/'
OPT=C+'macro_options/darling_opts.rs'; SET=C+'setter.rs'; INI=C+'initializer.rs'; BLD=C+'builder.rs'; BM=C+'build_method.rs'
BF=C+'builder_field.rs'; DEF=C+'default_expression.rs'; BLK=C+'block.rs'; LIB=C+'lib.rs'; PAT=C+'options.rs'; SPAN=C+'change_span.rs'
FERR='derive_builder/src/error.rs'; FLIB='derive_builder/src/lib.rs'; MAC='derive_builder_macro/src/lib.rs'
T=[]
def P(id,title,statement,over,text,why,files,mech,state=()):
    T.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 **({"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state]} if state else {})}})
P("C01","A setter stores exactly its value, in its own field, and nothing else",
  "Calling a generated setter makes the builder hold exactly the supplied value (after the configured Into conversion and Option wrapping) for that setter's own field, and leaves every other builder field as it was. It returns the builder so that calls chain, and a later call for the same field overrides an earlier one.",
  ["inputs","configurations","histories"],"all target structs, all combinations of setter options, all sequences of setter calls",
  "Existing tests call a few dozen concrete builders; the combinations pattern x into x strip_option x custom type x try x each x hidden neighbours are never enumerated.",
  [SET,OPT],[("setter body assigns the wrapped value to the field of the returned builder",SET+" ToTokens for Setter"),("setter knows its field",OPT+" FieldWithDefaults::as_setter")],
  [("setter value wrapping","how many Some layers the argument gets",SET)])
P("C02","Receivers and returns follow the builder pattern",
  "Owned setters take the builder by value and return it, mutable setters take and return an exclusive reference to the same builder, and immutable setters take a shared reference, leave that builder unchanged and return a modified clone. The build method consumes the builder only under the owned struct-level pattern and otherwise borrows it shared. A field-level pattern governs that field's setters, including its fallible and collection setters.",
  ["inputs","configurations"],"all struct-level x field-level pattern combinations and all setter kinds",
  "Tests cover each pattern alone with plain setters; not each pattern with try/each setters and field-level overrides.",
  [SET,BM,OPT],[("self parameter and return type by pattern",SET+" ToTokens for Setter"),("build self parameter",BM+" ToTokens for BuildMethod"),("pattern inheritance",OPT+" FieldWithDefaults::pattern")])
P("C03","build puts each set value into its own field of the result",
  "When build succeeds, every field for which the builder holds a value equals that value in the result - moved out where build consumes the builder, cloned where it only borrows it - and is never swapped with another field's value or replaced by a default. A field with a custom builder type is moved over as it is, and a field with a custom build expression gets the value of that expression evaluated in build.",
  ["inputs","configurations","histories"],"all target structs, field options and builder states",
  "Tests compare a handful of built values; they cannot show it for every option combination and field position.",
  [INI,OPT,BM,LIB],[("match on the builder field",INI+" ToTokens for Initializer"),("conversion selection",OPT+" FieldWithDefaults::conversion"),("one initializer per field",LIB+" builder_for_struct")])
P("C04","A missing required field is an error naming the first missing field",
  "build returns an error carrying the name of the first-declared field that has neither a value nor any default, converted into the builder's error type; it never invents a value and never panics. If no required field is missing (and validation and user expressions succeed) build returns Ok.",
  ["inputs","configurations","histories"],"all target structs and all subsets of unset fields",
  "Tests leave one or two particular fields unset; the order and naming must hold for every field count and option mix.",
  [INI,LIB,FERR],[("None arm returns the error",INI+" MatchNone::ReturnError"),("initializers pushed in declaration order",LIB+" builder_for_struct")])
P("C05","Default precedence: own default, then the struct default, then error",
  "For a field without a value, build uses the field's own default expression if present, otherwise the same-named field of the struct-level default if present, and otherwise reports the field missing. Default expressions run only inside build, anew on each call; a field's default expression runs only if that field has no value, and a struct-level default is evaluated exactly once per build, before any field is initialised.",
  ["inputs","configurations","histories"],"all combinations of field/struct defaults (expression or trait form) and set/unset fields",
  "Tests sample single combinations; precedence must hold for each combination with skip, custom types and patterns.",
  [INI,OPT,BM,DEF],[("None arm selection",INI+" Initializer::match_none"),("parent default",OPT+" FieldWithDefaults::use_parent_default"),("let __default",BM+" ToTokens for BuildMethod")])
P("C06","Validation runs first, once, and its error aborts build",
  "If a validation function is configured, build calls it exactly once, with the builder as the caller left it, before evaluating any default expression or moving any field out of the builder; an error from it is converted and returned and no value is constructed. If none is configured, no validation call happens.",
  ["inputs","configurations","histories"],"all builder states and option combinations",
  "Tests validate one or two builders; ordering relative to defaults and moves is not observed across patterns.",
  [BM,OPT],[("validate call precedes the default struct and the literal",BM+" ToTokens for BuildMethod"),("validate option",OPT+" Options::as_build_method")])
P("C07","Hidden fields have no setter and no storage but are still built",
  "A field whose setter is skipped gets no plain, fallible or collection setter and stores nothing of its type in the builder, and the result takes it from the field default, else from the struct-level default, else from the type's Default. A field with a custom setter only loses its generated setters; if it is not otherwise hidden, its storage in the builder and its role in build stay.",
  ["inputs","configurations"],"all combinations of skip/custom at field and struct level with the other setter options",
  "Tests cover single uses of skip and custom; not their interaction with each, try_setter, defaults and struct-level skip.",
  [OPT,BF,INI,SET],[("field_enabled / setter_enabled",OPT+" FieldLevelSetter"),("phantom storage",BF+" BuilderFieldType"),("default for disabled fields",INI+" Initializer::default")])
P("C08","Field-level options override struct-level ones",
  "For every option that exists on both levels (pattern; setter skip, into, strip_option, prefix; setter visibility; field visibility), an explicit field-level setting - including an explicit false - wins over the struct-level one, which wins over the documented default; the fallible-setter flag is on if either level sets it. Writing `setter` on a field, bare or with any generation setting, re-enables a setter skipped at struct level unless the field itself says skip.",
  ["inputs","configurations"],"the full product of field-level and struct-level settings",
  "Tests pick a few pairs; the override lattice (absent/true/false at each level, for each option) is not enumerated.",
  [OPT],[("inheritance accessors",OPT+" FieldWithDefaults"),("implicit enabling",OPT+" FieldLevelSetter::field_enabled"),("bare word setter",OPT+" field_setter")])
P("C09","Into and strip_option shape the setter argument correctly",
  "With `into` the setter accepts any type convertible into the argument type and converts it; without it the setter takes exactly the argument type. With `strip_option` on a field whose type is written Option<T> (also with its std or core path) the argument type is T and the stored value is wrapped accordingly, and on any other type strip_option has no effect. In every combination the stored value has exactly the type of the builder field.",
  ["inputs","configurations"],"all field types and all combinations of into, strip_option, custom builder type and try_setter",
  "Tests cover Option<String>-like samples; types that merely resemble Option (other paths, qualified self, several segments) and mixed options are not.",
  [SET],[("Option recognition",SET+" extract_type_from_option"),("wrapping",SET+" wrap_expression_in_some")])
P("C10","Fallible setters change the builder only on success",
  "A try_ setter exists exactly when fallible setters are enabled for a field that has a generated setter, and it shares that setter's visibility, forwarded attributes and receiver. If the conversion fails it returns the conversion's error unchanged and leaves a borrowed builder as it was; if it succeeds it leaves the builder exactly as the plain setter given the converted value would.",
  ["inputs","configurations","histories"],"all field options and all conversion outcomes",
  "Tests exercise a few successful/failed conversions; not with strip_option, custom types, patterns and prefixes.",
  [SET,OPT],[("try setter body",SET+" ToTokens for Setter"),("try flag",OPT+" FieldWithDefaults::try_setter")])
P("C11","Collection setters add exactly one item and keep the rest",
  "A setter requested with `each` adds exactly the given item (converted if `into` is requested for it) to the collection already held for that field (inside the builder's Option, or directly in a custom builder field type), keeping its previous content and every other field; if the field holds no collection yet, it starts from the collection type's Default. It is generated exactly when requested on a field whose generated setter is enabled, and follows that setter's visibility, attributes and builder pattern.",
  ["inputs","configurations","histories"],"all sequences of each/plain setter calls and all option combinations",
  "Tests use Vec/HashMap samples in a few configurations; strip_option with an existing None/Some and the immutable pattern are sampled once or not at all.",
  [SET,OPT],[("extend of the initialised collection",SET+" ToTokens for Setter (each)"),("each parsing",OPT+" parse_each")])
P("C12","Clone is demanded only where the pattern needs it",
  "The builder derives Clone exactly when the struct-level pattern or the effective pattern of at least one field is not owned. The builder's impl blocks add a Clone bound to every type parameter exactly when the struct-level pattern is not owned or some generated setter is of the immutable pattern (and so clones the builder), and no Clone bound or derive at all appears for a builder whose struct and fields are all owned.",
  ["inputs","configurations"],"all numbers of fields, field-level pattern overrides and generic parameter lists",
  "Tests have one- or two-field examples; the any-field quantification and the per-parameter bound need all lists.",
  [OPT,BLD,PAT],[("requires_clone",OPT+" Options::requires_clone"),("impl bounds",BLD+" Builder::compute_impl_bounds")])
P("C13","The builder carries the target's generics unchanged",
  "The builder struct declares exactly the target's lifetimes, type and const parameters with their bounds, defaults and where clause, so every parameter stays used, and its inherent impl and Default impl are for the builder with exactly those parameters and that where clause. build returns the target type with the same arguments.",
  ["inputs","configurations"],"all generic parameter lists and where clauses",
  "Tests use a few generic structs; all mixes of lifetimes, consts, defaults and where clauses cannot be sampled.",
  [BLD,BM,OPT],[("struct generics and split impl generics",BLD+" ToTokens for Builder"),("target type generics",OPT+" Options::as_build_method")])
P("C14","Visibility of every generated item follows the documented rules",
  "The builder and its generated error type have the explicitly requested visibility, else the target's; the build method has its own requested one, else the builder's; setters have the field's requested one, else the struct-level request, else pub; builder fields have the field's requested one, else are private when hidden, else the struct-level field request, else private. `public`, `private` and `vis = ...` mean exactly pub, private and the given visibility.",
  ["inputs","configurations"],"all combinations of visibility options on struct, build_fn, field and setter level",
  "Tests check single visibility settings; the fallback chains are not enumerated and over-exposure is invisible to a passing test.",
  [OPT,BLD,BM,BF,SET],[("explicit visibility",OPT+" VisibilityAttr::to_explicit_visibility"),("fallback chains",OPT+" builder_vis, build_method_vis, setter_vis, field_vis")])
P("C15","Names of generated items follow the documented scheme",
  "The builder is named as requested, else <Target>Builder; the generated error is named <Builder>Error and build returns exactly that type; the build method is named as requested, else build; the empty constructor is named as requested, else create_empty. A setter is named as requested, else <prefix>_<field> with the field's or else the struct's prefix, else like the field; its fallible form is that name prefixed with try_; the collection setter has the requested name. Every builder field is named like its target field.",
  ["inputs","configurations"],"all identifiers (including raw ones) and all naming options",
  "Tests use plain identifiers and single options; raw identifiers and combinations are not sampled.",
  [OPT,SET,BLD],[("builder_ident / builder_error_ident / setter_ident",OPT),("error ident in the definition",BLD+" ToTokens for Builder"),("try ident",SET)])
P("C16","Attributes are forwarded to the right items, once, in order",
  "Field attributes doc, cfg and allow go to both the builder field and the field's setters, struct attributes cfg and allow go to both the builder struct and its inherent impl, and each builder_*_attr attribute goes, with only its outer wrapper removed, to exactly the item it names. Relative order is kept, nothing is dropped or duplicated, and no other attribute of the input is copied.",
  ["inputs","configurations"],"all attribute lists on structs and fields",
  "Tests forward one or two attributes; loss, duplication, reordering or cross-delivery shows only for particular mixes.",
  [OPT,SET,BF,BLD],[("distribution and unnesting",OPT+" distribute_and_unnest_attrs, unnest_from_one_attribute"),("emission",SET+", "+BF+", "+BLD)])
P("C17","Conflicting or meaningless options are rejected, never ignored",
  "Using public, private and vis together in any pair, a default together with a custom field type or build expression, a validation function with validation_error = false, an empty default or build string, a non-list builder_*_attr, an error option given as a bare word, or deriving on anything but a struct with named fields is always reported as a compile error, however the options are combined. Inputs without such a conflict are not rejected for one.",
  ["inputs","configurations"],"all option combinations at each level",
  "The compile-fail tests contain a dozen fixed inputs; every pair and every combination with other options must be caught.",
  [OPT,BLK,DEF],[("visibility conflicts",OPT+" FromMeta for VisibilityAttr"),("resolve",OPT+" Field::resolve"),("validation_needs_error",OPT+" BuildFn"),("empty blocks",BLK)])
P("C18","The derive macro never panics",
  "For every input the compiler can hand to the derive, expansion finishes with generated code or with compile_error diagnostics and never panics.",
  ["inputs","configurations"],"every derive input and option combination",
  "A panic hides in the option combination or identifier no test writes.",
  [OPT,SET,BF,LIB,BLD],[("phantom setters unreachable",BF+" setter_type_info"),("error accumulators are finished",OPT),("identifier construction",SET+", "+OPT)])
P("C19","Generated paths go through the configured crate root",
  "Every qualified path in generated code that names an item of the library or of core/alloc starts with the crate root given by the `crate` option, or with ::derive_builder if none was given, for every option combination. The only other absolute library path is the std::error::Error impl.",
  ["inputs","configurations"],"all option combinations and crate roots",
  "Tests use one alias in one small struct; a hard-coded path in a rarely used branch is invisible.",
  [BLD,SET,INI,BM,BF,DEF,OPT],[("crate_root interpolation",BLD+", "+SET+", "+INI+", "+BM+", "+BF),("default root",OPT+" default_crate_root")])
P("C20","no_std and no-alloc modes keep std and String out",
  "With the no_std option the expansion names nothing from std. With validation_error = false or an existing error type it names no String, and when the library is built without alloc and std an expansion that would need String contains an explanatory compile error instead of code naming it.",
  ["inputs","configurations"],"all option combinations x library feature sets",
  "The no_std test crates contain three structs; a std or String mention in another branch would not be compiled there.",
  [BLD,OPT,FLIB],[("std error impl guarded",BLD),("validation error guarded",BLD),("no_alloc",OPT+" Options::as_builder")])
P("C21","The generated error type is complete and faithful",
  "Unless an existing error type is given, the derive defines a #[non_exhaustive] error enum with Debug, Display, a conversion from the missing-field error that keeps the field name, (unless disabled) a validation variant with a conversion from String that keeps the text, and, unless no_std, std::error::Error. Display prints exactly the validation text, or \"`<field>` must be initialized\"; with an existing error type nothing of this is defined and build returns that type.",
  ["inputs","configurations"],"all error options and error values",
  "Tests display one or two errors; the definition must be right under every combination of error options.",
  [BLD,OPT],[("error enum and impls",BLD+" ToTokens for Builder"),("generate_error, generate_validation_error",OPT+" Options::as_builder")])
P("C22","A fresh builder is empty",
  "The generated empty constructor yields a builder in which no field has a value (each field is the Default of its builder field type), and the builder's Default is that constructor. Default is implemented for every builder except those with custom_constructor, which still have the empty constructor.",
  ["inputs","configurations"],"all target structs and option combinations",
  "Tests check a few builders; a field pre-filled under one option mix would go unnoticed.",
  [BLD,BF,OPT],[("default initialisers",BF+" default_initializer_tokens"),("Default impl",BLD+" ToTokens for Builder"),("custom_constructor",OPT+" Options::as_builder")])
P("C23","Expansion is a pure, deterministic function of its input",
  "The expansion depends only on the derive input and the enabled library features: it reads no environment, file, clock, network, random source or state kept from earlier expansions, writes nothing, and its order never depends on hash iteration order.",
  ["inputs","histories","configurations"],"all inputs and all sequences of expansions in one compiler process",
  "Tests expand in one environment; dependence on hidden state shows only under another environment or order.",
  [LIB,OPT,MAC],[("entry point and everything it calls",LIB+" builder_for_struct"),("proc-macro entry",MAC+" derive")])
P("C24","build_fn options affect the build method only",
  "With build_fn(skip) no build method is generated, and setters, builder struct, constructor and error type stay as they would be without it; otherwise exactly one build method is generated. Its name and visibility options change only its name and visibility, never which fields it initialises.",
  ["inputs","configurations"],"all option combinations",
  "Tests rename or skip build in one or two structs.",
  [BM,OPT,BLD,LIB],[("enabled flag",BM+" ToTokens for BuildMethod"),("skip/name",OPT+" Options::as_build_method")])
P("C25","Every field is generated exactly once, in declaration order",
  "For a struct with any number of fields, the builder declares exactly one field per target field, the empty constructor and the build method initialise each exactly once, and builder fields, setters and initialisers appear in declaration order; what is generated for one field does not depend on the options of another.",
  ["inputs","configurations"],"all field counts and all mixes of field options",
  "Tests use structs of one to five fields; dependence on position, count or a neighbour's options needs all lists.",
  [LIB,BLD,BM,OPT],[("per-field loop",LIB+" builder_for_struct"),("FieldIter",OPT+" FieldIter"),("push_*",BLD+", "+BM)])
P("C26","Generated code is free of unsafe and of panics",
  "Generated code contains no unsafe block, and outside user-supplied expressions it calls nothing that can panic (no unwrap, expect, panic, indexing): every failure is returned as an Err. The library's own source uses no unsafe either.",
  ["inputs","configurations"],"all expansions and all uses of the generated methods",
  "Absence of a construct on all expansions is not testable by sampling.",
  [SET,INI,BLD,BM,BF,DEF,FERR,FLIB],[("token templates",SET+", "+INI+", "+BLD+", "+BM)])
P("C27","UninitializedFieldError keeps and shows the field name",
  "A missing-field error created from a name, by constructor or by conversion, returns exactly that name and displays as \"Field not initialized: <name>\", in every feature set; with std it implements std::error::Error.",
  ["inputs","configurations"],"all names and feature sets",
  "Tests display one name.",
  [FERR,FLIB],[("UninitializedFieldError",FERR),("re-export",FLIB)])
P("C28","Default and build expressions are taken over verbatim",
  "A string given for a default or field-build expression is used as the contents of a block, with full access to the builder as self and to `?` and return of build; an unquoted expression is used as it stands (field(build = ..) rejects a literal that is not a string); bare `default` means the type's Default. The expression appears unmodified and exactly once, only where that field (or the struct default) is initialised.",
  ["inputs","configurations"],"all expressions and option combinations",
  "Tests use a few expressions; truncation, duplication or misplacement shows for particular shapes.",
  [BLK,DEF,INI,BM],[("BlockContents conversions",BLK),("DefaultExpression::from_expr/from_word",DEF)])
P("C29","Generated public items are documented and lint-quiet",
  "Every generated item that can be visible outside - builder, build method, error type and its variants, empty constructor - carries a doc comment, and setters and builder fields carry their field's docs, so a documented struct compiles under deny(missing_docs). The builder struct and its impl are exempted from clippy unless the clippy feature is on, the impl tolerates unused methods, and setters tolerate an unused mut.",
  ["inputs","configurations"],"all option combinations and feature sets",
  "One example is compiled under deny(missing_docs).",
  [BLD,BM,SET,LIB],[("doc attributes",LIB+" builder_for_struct"),("allow attributes",BLD+", "+SET)])
P("C30","A bad error conversion is reported at the user's error type",
  "When build must convert the missing-field error into a user-given error type, every token of that conversion (the literal with the field's name aside) carries the source position of the user's error path, at any nesting depth, so that the compiler's complaint about a missing conversion points there; and re-positioning tokens changes nothing but positions.",
  ["inputs","configurations"],"all crate roots, error paths and token nestings",
  "Two compile-fail tests check two messages under one compiler version.",
  [INI,SPAN,OPT],[("change_span",SPAN),("conv_span",INI+" MatchNone::ReturnError"),("custom_error_type_span",OPT+" FieldWithDefaults::as_initializer")])
P("C31","Every accepted option reaches the expansion",
  "Every option the attribute parser accepts, on the struct, on a field or inside build_fn, setter, field, error and each, influences the expansion of some input; none is parsed and then dropped. The accepted option names at each level are exactly the documented ones, and an unknown name is a compile error.",
  ["inputs","configurations"],"all options at all levels",
  "A dropped option is only noticed if a test asserts that option's effect in the dropped combination.",
  [OPT,SET,BLD,BM,INI,BF],[("parsed option structs",OPT+" Options, Field, FieldLevelSetter, StructLevelSetter, BuildFn, FieldLevelFieldMeta"),("consumers",OPT+" as_builder, as_build_method, as_setter, as_initializer, as_builder_field")])
P("C32","Every accepted input expands to code that compiles",
  "If the derive accepts an input whose field types satisfy the documented bounds and which avoids the documented gotchas, the expansion compiles.",
  ["inputs","configurations"],"all target structs, user types, user expressions and attributes",
  "Needs all user types and expressions; tests compile about a hundred structs.",
  [SET,INI,BLD,BM,BF],[("whole expansion",LIB+" builder_for_struct")])
P("C33","Cloning in build and setters costs nothing in optimised builds",
  "In release builds the clone calls made by mutable and immutable builders in chained use are optimised away.",
  ["inputs","configurations"],"all field types and call chains",
  "Not tested at all; it is a statement about the optimiser.",
  [FLIB],[("documentation claim",FLIB+" Performance Considerations")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in T:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(T))
