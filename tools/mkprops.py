#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
SM="structmeta-derive/src/struct_meta.rs"; PA="structmeta-derive/src/parse.rs"; TT="structmeta-derive/src/to_tokens.rs"
TA="structmeta-derive/src/to_tokens_attribute.rs"; SU="structmeta-derive/src/syn_utils.rs"; HE="structmeta/src/helpers.rs"; AT="structmeta/src/arg_types.rs"
DL="structmeta-derive/src/lib.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PI=["programs","inputs"]
OB=["syn::parse2::<T>(tokens) for a #[derive(StructMeta)] type T: Ok(fields) / Err(span, message) / panic"]
OBP=["syn::parse2::<T>(tokens) and the position of the input stream afterwards, for a #[derive(Parse)] type T"]

p("C01","StructMeta accepts every conforming argument list and stores it faithfully",
"For every struct that derives StructMeta and every argument list that conforms to its declaration (each parameter in a style its field type admits, every required one present, positional before named), parsing succeeds. Every field then holds exactly the value written for it, in all supported styles (`name`, `name = value`, `name(args)`, `name(a, b, ..)`, positional, rest) and for all optional, list and flag-or-value wrappers; nothing is lost, swapped, reordered, duplicated or taken from another argument.",
PI,"all admissible struct declarations (any number, order and mix of fields and styles) x all conforming argument lists",
"Tests use about 30 structs of one or two fields with one to three literal arguments; mixes of styles, many fields and list lengths are unsampled.",
[SM,HE],[("Params::from_fields classification and Params::build generated loop",SM),("NamedParam/RestParam/UnnamedParam arms and build_ctor_arg",SM),("try_parse_name dispatch",HE)],OB,
[("_value_N temporaries","the value collected for field N",SM),("unnamed_index","next positional slot",SM)])
p("C02","Unknown names and wrong argument styles are rejected",
"If a struct has no field and no rest parameter that accepts a named argument's name in the style it is written in, a list in which that argument is read as a named argument is rejected. This holds for every combination of the struct's other parameters, wherever the argument stands in the list, and whatever its value is.",
PI,"all declarations x all lists containing an argument with an undeclared name or a style not admitted by the field's type (flag, name = value, name(args))",
"About ten compile-fail cases cover single-parameter structs; the acceptance table is a product of styles, wrappers, rest and positional parameters.",
[HE,SM],[("try_parse_name kind selection and name_index_of",HE),("NamedParamType::is_flag/is_name_value/is_name_args",SM)],OB)
p("C03","No parameter can be given twice",
"An argument list that gives the same named parameter, or the same rest key, more than once is rejected, whatever styles the two occurrences use, however far apart they are, and whatever their values are. Distinct names never count as duplicates of each other.",
PI,"all declarations x all lists with at least one repeated name (flag/flag, value/value, flag/value, args/args, rest/rest, 2..n occurrences)",
"Three compile-fail cases repeat a `name = value` once; flags, lists, mixed styles, rest of other kinds and distant repeats are not exercised.",
[SM],[("is_some() guard in NamedParam::build_arm_parse; insert().is_some() in RestParam::build_arm_parse",SM)],OB)
p("C04","Missing required parameters are errors, omitted optional ones are empty",
"A list that omits a required parameter (a named one of a non-optional, non-flag type, or a required positional one) is rejected even if everything else is present. An omitted optional parameter yields None, an omitted flag false, an omitted variadic or rest an empty collection, and never makes parsing fail.",
PI,"all declarations x all subsets of their parameters",
"Tests omit the only parameter of one-parameter structs; subsets of larger declarations are not covered.",
[SM],[("ok_or_else in NamedParam::build_ctor_arg; is_empty check between required positionals in Params::build",SM)],OB)
p("C05","Positional arguments fill required, then optional, then variadic fields",
"The k-th positional argument of a list always goes to the k-th positional field (required first, then optional, in declaration order), and all further ones are appended in order to the variadic field. A positional argument beyond what the declaration admits, or after a named one, is rejected.",
PI,"all declarations with positional fields (any mix, interleaved with named and rest fields) x all lists",
"Tests use at most three positionals and never check surplus or late positionals for the optional and variadic cases together with named ones.",
[SM],[("unnamed_index match and named_used guard in Params::build",SM)],OB,[("unnamed_index","position of the next positional argument",SM),("named_used","a named argument has been seen",SM)])
p("C06","Lists are comma separated and every token is accounted for",
"A list is accepted only if it is a sequence of well-formed arguments separated by single commas, with at most one trailing comma (which changes nothing); a leading, doubled or missing comma is rejected. A token that belongs to no argument, in the list itself or inside the parentheses of `name(...)`, or a value its field's type does not parse, makes parsing fail: nothing is skipped silently.",
PI,"all declarations x all lists obtained by inserting, deleting or doubling commas and tokens in and around arguments",
"Tests contain well-formed lists only, apart from one-argument failures.",
[SM,HE],[("is_next comma handling and while !input.is_empty() in Params::build",SM),("parenthesized!/parse_terminated in build_parse_expr_name_args",SM)],OB)
p("C07","Ambiguous arguments are resolved by declared styles and name_filter",
"In a struct with optional or variadic positional parameters, an argument starting with an identifier is read as a named argument exactly when the struct declares a parameter (rest included) of the style the argument starts with (`name` alone, `name =`, `name(`) and the identifier passes name_filter; otherwise it is a positional value. `name ==` and `name =>` never count as `name =`, spacing after `=` does not matter, and required positional arguments are always read as values.",
PI,"all declarations mixing positional and named parameters, with and without name_filter x all arguments that are valid both as names and as expressions/types/paths/identifiers",
"Eight tests with one positional Expr and one named parameter; the table is (styles declared) x (style written) x filter x spacing x value type.",
[HE,SM],[("try_parse_name may_*/no_unnamed logic, peek_eq_op, is_snake_case",HE),("NameFilter",SM)],OB)
p("C08","The rest parameter collects exactly the unassociated named arguments",
"A HashMap<String, _> field receives every named argument of its style whose name no field declares in that style, keyed by the exact written name with exactly the written value, and nothing else. Declared parameters never leak into it, and arguments in a style the rest type does not admit are not collected.",
PI,"all declarations with a rest field of every admissible element type x all lists of declared and undeclared names",
"One test with a single map of LitStr and at most two entries.",
[SM,HE],[("RestParam arms; name_index_of fallback to rest",SM)],OB)
p("C09","Order of named arguments and spacing never change the outcome",
"Permuting the named arguments of a list, adding or removing its trailing comma, or changing only the whitespace between tokens (keeping the same token sequence) never changes whether the list is accepted or which values the fields receive.",
PI,"all declarations x all lists x all permutations of the named part and all token-preserving re-spacings",
"Tests fix one order and one spacing per case.",
[SM,HE],[("index-based dispatch on names instead of positions",SM),("peek_eq_op spacing handling",HE)],OB)
p("C10","Parameter names match exactly",
"A named field is addressed by exactly one name: its `name = \"...\"` override if given, else its identifier without the r# prefix; keywords, names with digits, underscores or non-ASCII letters included. Any other spelling (different case, prefix, suffix, similar name, the field's own identifier when overridden) does not address it, and `unnamed` fields have no name.",
PI,"all field identifiers and overrides (identifiers, keywords, raw identifiers, Unicode) x all argument names",
"A handful of fixed names (abc, if, self, xxx).",
[SM,HE],[("Param::from_field name computation (unraw, name attribute)",SM),("find",HE)],OB)
p("C11","A field's role does not depend on how its type is spelled",
"The style and optionality of a field depend only on which standard or structmeta type it has: Option, Vec, HashMap, String, bool, Flag, NameValue, NameArgs behave identically whether written bare, through any suffix of their public path, fully qualified with or without a leading `::`, or passed into a macro_rules definition as a type. Types of the same name from unrelated modules are ordinary value types.",
["programs","inputs"],"all declarations x all spellings of the recognised types, nested in each other x all argument lists",
"Four unit tests check Option spellings on the classifier; no other type or nesting, and never the resulting behaviour.",
[SU,SM],[("get_arguments_of / is_match_ns",SU),("get_option_element .. is_string",SM)],OB+["whether the declaration compiles"])
p("C12","Recorded spans are the spans of the written names",
"After a successful parse, the span in Flag, NameValue and NameArgs (also inside Option and rest maps) is exactly the span of the name token of the argument that set the field, and a Flag that was not given has no span. Values keep the spans of their source tokens.",
PI,"all declarations with span-carrying field types x all accepted lists",
"Equality in the tests ignores spans; no test reads one.",
[SM,HE,AT],[("span returned by try_parse_name and stored by build_parse_expr/build_ctor_arg",SM)],OB+["Flag.span, NameValue.name_span, NameArgs.name_span as line/column positions"])
p("C13","Rejections point at the first offending argument and name the parameter",
"When a list is rejected because of an unknown name, a wrong style, a repeated parameter or a surplus or late positional argument, the error is located at the start of the first such argument; the first three kinds also name the parameter. When a required named parameter is missing the message names that parameter.",
PI,"all declarations x all rejected lists of these kinds",
"The .stderr files pin one location per message kind, with the offending argument almost always first.",
[HE,SM],[("input.error before advancing in try_parse_name",HE),("Error::new(span, ..) in the duplicate arms, missing argument messages",SM)],OB+["syn::Error span start and message"])
p("C14","Similar-name suggestions are right",
"When an unknown name is rejected with a suggestion, the suggested name is a declared parameter that differs from it by one inserted, deleted or replaced character or one swap of neighbours, and no other declared name is as close. When exactly one declared name is that close it is always suggested.",
PI,"all sets of declared names x all unknown names",
"Six distance pairs and one compile-fail case.",
[HE],[("find_similar_name, distance",HE)],OB+["the help part of the error message"])
p("C15","Derived parsers are total",
"For every token stream whatsoever, the parser generated by StructMeta or Parse returns Ok or a syn::Error in bounded time; it never panics, overflows or loops, and the error it returns has a non-empty message and converts to compile errors.",
PI,"all generated parsers x arbitrary token streams (well-formed, mutated, random soup, invisible groups, long lists)",
"Tests feed short well-formed inputs.",
[SM,PA,HE],[("generated loops and unreachable!/unwrap arms",SM),("generated variant functions",PA),("slice indexing in distance",HE)],OB+OBP+["panics, process aborts, CPU-time watchdog"])
p("C16","Parsing is a pure function of the input tokens",
"Parsing the same tokens with the same derived type always gives the same outcome: same values, or the same error message and location. Earlier successful or failed parses of this or other types, their order, and parses running on other threads never influence it, and the caller's tokens are not modified.",
["histories","schedules","inputs"],"all sequences and concurrent schedules of parses over the generated types",
"Each test parses in isolation and once.",
[SM,PA,HE],[("no shared state in generated code or helpers",HE)],OB+OBP)
p("C17","A derived struct parser parses its fields in order and nothing else",
"The parser derived for a struct (named, tuple, unit) succeeds exactly when parsing each field's type in declaration order, one after the other, succeeds; each field holds the value of its own parse. It consumes exactly the tokens of its fields and leaves the rest of the stream to the caller.",
PI,"all struct declarations x all token streams, with trailing tokens",
"Tests use a dozen structs with one input each and always parse a whole stream.",
[PA],[("code_from_fields",PA)],OBP)
p("C18","Enum parsers take the first variant that parses, with clean backtracking",
"For an enum without peek, the result is the first variant in declaration order whose fields parse at the current position; a failed attempt consumes nothing and leaves no trace in the result. Exactly the chosen variant's tokens are consumed, and if no variant parses the result is an error.",
PI,"all enum declarations (any number of variants, shared prefixes, unit and empty variants, nested derived types) x all token streams",
"Three tests with disjoint first tokens; shared prefixes, overlapping variants and positions after backtracking are not exercised.",
[PA],[("fork / advance_to code in code_from_enum, input_is_forked / input_is_moved",PA)],OBP)
p("C19","peek commits an enum parser to a variant",
"A variant with #[parse(peek)] fields is attempted exactly when the next one to three tokens match those fields (with `any`, keywords count as identifiers); if they match, the outcome is that variant's outcome, even if it fails, and no later variant is tried. If they do not match, the variant is skipped without being parsed, and variants without peek in the same enum are still tried in declaration order by backtracking.",
PI,"all enum declarations mixing peeked (1-3 tokens, any, enclosed groups) and non-peeked variants x all token streams",
"Seven tests with one or two variants.",
[PA],[("to_predicate and peeks in code_from_enum/code_from_fields",PA)],OBP)
p("C20","to_tokens delimiters enclose the same fields when parsing",
"With #[to_tokens(\"(\")], \"[\" or \"{\" on a delimiter field, the parser requires a group of that delimiter there and parses exactly the following fields up to the matching close (or the end) inside it, to any depth; a MacroDelimiter field accepts any of the three and records which. A different delimiter, too few or left-over tokens inside the group are rejected, and parsing goes on right after the group.",
PI,"all placements of opening and closing symbols (nested, adjacent, closed-and-reopened, empty, unclosed) in structs and enum variants x all token streams",
"Twelve tests, each with the conforming input only.",
[PA,HE,TA],[("scopes stack in code_from_fields",PA),("parse_macro_delimiter",HE)],OBP,[("scopes","open delimiters and their content stream",PA)])
p("C21","any and terminated select the documented parser",
"A field with #[parse(any)] accepts keywords where an identifier is expected and one without does not; a field with #[parse(terminated)] parses a whole separated list with optional trailing separator to the end of its enclosing group or input; combined, they parse a separated list of identifiers or keywords. The elements, separators and their order are kept, and other fields are not affected.",
PI,"all fields with these attributes, inside and outside delimiters, in structs and variants x all token streams",
"Four tests with fixed short inputs.",
[PA],[("ParseAttribute and expr selection in code_from_fields",PA)],OBP)
p("C22","Derived ToTokens emits every field once, in order, inside its delimiters",
"to_tokens of a deriving struct or enum appends to the given stream exactly the tokens of the value's fields in declaration order, each exactly once, with the fields between an opening delimiter field and its close (or the end) inside one group of that delimiter, nested as declared; for an enum, those of the value's variant only. Spans and spacing of the field tokens and what was already in the stream are kept.",
["programs","inputs"],"all struct and enum declarations with any delimiter placement x all field values",
"Thirty tests with one value each compare display strings only.",
[TT,HE],[("code_from_fields scope stack and Scope::into_code",TT),("surround_macro_delimiter",HE)],["quote::ToTokens::to_tokens of a derived type, compared token by token"],[("scopes","open delimiters and code collected in them",TT)])
p("C23","Parse and ToTokens derived on one type are inverse",
"For a type deriving both, if parsing a token stream succeeds and consumes it, printing the value gives the same token stream back (same tokens, delimiters and spans); and parsing the printed tokens of a parsed value gives an equal value of the same variant.",
PI,"all declarations deriving both traits x all accepted token streams",
"The parse tests check this on one input each, as display strings.",
[PA,TT],[("both derives read the same #[to_tokens] attribute in their own scope stack",PA+", "+TT)],OBP+["to_token_stream() of the parsed value"])
p("C24","Ill-formed declarations fail to compile, at the declaration, without panics",
"A declaration that breaks a documented rule (unsupported item kind, unknown helper argument, duplicate parameter name, second rest, wrong positional order, flag or map types where they are not admitted, mismatched, surplus or invalid delimiter symbols, misplaced or surplus peek) never compiles; and a declaration that breaks none of them does. Rules that only structmeta knows (item kind, helper arguments, filter names, duplicate names, second rest, positional order, delimiter symbols, peek placement) are reported by the derive itself: a normal compile error located in that declaration, not merely an error of rustc in the generated code; the derive never panics on any declaration (except for the requested dump).",
["programs"],"all declarations, well-formed and ill-formed, for the three derives",
"About fifteen compile-fail cases; most error paths of the derive crate are never executed by the tests.",
[SM,PA,TT,TA,SU],[("bail! sites and attribute parsers",SM+", "+PA+", "+TT+", "+TA)],["rustc --error-format=json diagnostics per declaration"])
p("C25","Derives carry over generics",
"For a type with lifetime, type and const parameters, bounds, defaults and where clauses, the three derives implement their trait for that type with exactly its parameters and bounds, for structs and enums alike, and the instantiated type behaves like the same type written without generics.",
["programs","inputs"],"all supported generic declarations and instantiations x all inputs",
"No test declares a generic type.",
[SU,PA,TT,SM],[("impl_trait split_for_impl",SU)],["compilation of the declaration and of uses of its instances","behaviour of the instances against the models"])
p("C26","Derived code does not depend on or disturb names at the use site",
"The derives compile and behave the same whatever the names of the type, its fields, variants, type parameters and parameters are, and whatever modules, types, traits, functions or enum variants are in scope at the declaration (including ones named like syn, structmeta, quote, std's prelude variants or Result; also without the standard prelude), with no imports required beyond the crates. They add no warnings to the user's crate (about the user's own redundantly qualified paths aside) and forbid nothing (unsafe code forbidden, missing docs denied and so on). What no derive can shield itself from is excepted: lower-case constants and unit or tuple structs named like a local variable of generated code, and extension methods blanket-implemented for every type.",
["programs"],"all names of declared items and all name environments at the derive site",
"All tests derive in modules with ordinary names and imports.",
[PA,SM,TT,SU],[("absolute paths and underscore-prefixed locals in generated code",SM+", "+PA+", "+TT)],["rustc diagnostics of hostile-scope declarations", "behaviour of the types declared there"])
p("C27","Expansion is deterministic",
"The code a derive generates for a declaration depends only on that declaration: expanding it again, in another process, in another position, or after other (also failing) expansions gives the same code.",
["programs","histories"],"all declarations x all orders and repetitions of expansions",
"No test looks at generated code twice.",
[SM,PA,TT],[("BTreeMap of named parameters; no global state",SM)],["macro-expanded source of each declaration"],[("Params.named","named parameters in a deterministic order",SM)])
p("C28","dump shows exactly the generated code and stops compilation",
"With dump in #[struct_meta(..)], #[parse(..)] or #[to_tokens(..)] on a type, compilation fails with an error at that derive whose message contains the complete code the same derive generates without dump; without dump no such output appears and other derives on the type are unaffected.",
["programs"],"all declarations x the three derives x combinations of dump with the other arguments",
"dump is never exercised.",
[SU,SM,PA,TT],[("impl_trait_result",SU)],["rustc diagnostics vs. macro-expanded source"])
p("C29","Flag, NameValue and NameArgs obey their value laws",
"Flag equality, From<bool>, value(), NONE, Default, | and |= agree with boolean logic on whether the flag is set, for every combination of spans; | and |= agree with each other and keep the span of the leftmost set operand. NameValue and NameArgs compare equal exactly when their values do, whatever their spans; clones are equal.",
["inputs"],"all combinations of set/unset flags and spans, all value pairs",
"No test calls the operators.",
[AT],[("PartialEq/From/BitOr/BitOrAssign impls",AT)],["the public API of structmeta::{Flag, NameValue, NameArgs}"])
p("C30","Derived types compose",
"A derived type used inside another one (a StructMeta type as the arguments or value of a parameter, a Parse type as a field, variant, list element or parameter value, to any depth) behaves exactly as it does at the top level: its own rules apply to its own tokens only, the outer rules to the rest, and an error inside makes the whole parse fail.",
PI,"all nestings of derived types x all token streams",
"One compile-fail case nests one StructMeta in NameArgs.",
[SM,PA,HE],[("generated Parse impls consume only their own part of the stream",SM+", "+PA)],OB+OBP)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,(x["id"])
print(len(P))
