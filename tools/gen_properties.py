import json
A="leptos-mview-core/src/"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[ (A+f if not f.startswith(('README','src','leptos-')) else f) for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None,
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
p("C01","The rendered document has exactly the shape of the template",
 "For every valid template, the view renders exactly the elements, text and embedded values that were written, each once, in source order and at the written nesting, whatever the number of siblings, the kind of brackets around children or the formatting of the source. Every element name becomes an element of its own language: HTML, SVG, MathML, or a custom element for names with a hyphen.",
 ["inputs","programs"],"all templates: any nesting, sibling count, mix of element languages, components, text, embedded values and nested templates",
 "Tests render a few dozen fixed templates, none with an SVG or MathML element and none with more than a handful of siblings; the space of templates is unbounded and each element name and child count takes its own path.",
 ["lib.rs","parse.rs","ast/children.rs","ast/element.rs","ast/tag.rs","ast/value.rs","expand.rs","expand/subroutines.rs"],
 [("child parsing and ordering",A+"ast/children.rs Child::parse, Children::parse"),("element kind lists",A+"ast/tag.rs TagKind::from"),("child expansion",A+"expand/subroutines.rs xml_child_methods_tokens, expand.rs children_fragment_tokens")],
 ["server-rendered HTML of the view","Rust type of the view (element language)"])
p("C02","Key-value attributes reach their element with the written name and value",
 "Every key-value attribute on an element is rendered on that element exactly once under the name as written (hyphens kept, keywords allowed) with the written value: literals, blocks, lazily computed values and format values alike. A bare attribute name means true, true renders as a valueless attribute and false as no attribute, and the shorthand with braces takes its value from the variable whose name has underscores for hyphens.",
 ["inputs","programs"],"all attribute names (global, element specific, aria, data, custom; on HTML, SVG, MathML and custom elements), value forms and combinations",
 "Tests use about a dozen attribute names and each value form once; the choice between checked and unchecked attributes depends on both the name and the element's language.",
 ["ast/attribute.rs","ast/attribute/kv.rs","ast/ident.rs","ast/value.rs","expand/subroutines.rs"],
 [("attribute parsing",A+"ast/attribute/kv.rs KvAttr::parse"),("kebab identifiers",A+"ast/ident.rs KebabIdent::parse, to_snake_ident"),("checked/unchecked choice",A+"expand/subroutines.rs xml_kv_attribute_tokens, AttributeKind")],
 ["attributes of the server-rendered HTML"])
p("C03","Selectors, class and style settings on an element all combine",
 "An element's class list consists of the classes of its class attribute, of every class selector and of every class directive whose condition holds, and nothing else; its style declarations are those of the style attribute and of every style directive; its id is that of its id selectors, joined with spaces. Directives are applied after the plain class and style attributes, wherever they are written, and names are kept verbatim, including hyphens and string-literal names.",
 ["inputs","programs"],"all combinations, orders and spellings of selectors, class/style attributes and class:/style: directives on an element",
 "Tests check a few fixed combinations; the interplay depends on which of the forms are present together and on their order and spelling.",
 ["ast/attribute/selector.rs","ast/attribute/directive.rs","ast/ident.rs","expand.rs","expand/subroutines.rs"],
 [("selector parsing",A+"ast/attribute/selector.rs SelectorShorthand::parse"),("order of attributes and directives",A+"expand.rs xml_to_tokens"),("selector expansion",A+"expand/subroutines.rs xml_selectors_tokens, xml_directive_tokens")],
 ["class, style and id of the server-rendered HTML","order of class settings in the type of the view"])
p("C04","Listeners, properties, refs, directives and spreads attach exactly once",
 "Every on:, prop:, use:, ref and spread item on an element is attached to that element, and to no other, exactly once, with the written event, property name, function or attributes and with the written value. The undelegated modifier makes exactly the listener it is written on undelegated, and the parameter of use: is converted with Into exactly once (unit when none is given).",
 ["inputs","programs"],"all events, property names, directive functions, element languages and combinations of these items in any order",
 "The test suite only checks that a few of these compile, since they leave no trace in rendered HTML; nothing observes which element, event, property or handler was attached.",
 ["ast/attribute/directive.rs","ast/attribute/spread_attrs.rs","expand.rs","expand/subroutines.rs"],
 [("directive expansion",A+"expand/subroutines.rs xml_directive_tokens, event_listener_event_path, use_directive_fn_value"),("spread expansion",A+"expand/subroutines.rs xml_spread_tokens"),("node ref",A+"expand/subroutines.rs xml_kv_attribute_tokens")],
 ["Rust type of the view","Debug output of the view","log of conversions"])
p("C05","Component props receive exactly the written values",
 "A component receives, for each attribute written on it, the prop of that name with hyphens turned into underscores, holding the written value (after the prop's own conversion), and its defaults for all the others; a bare name passes true and the brace shorthand passes the variable of that name. Component names may be plain, paths (with or without a leading colon pair) or carry generics with or without turbofish, and always denote that very component with those type arguments.",
 ["inputs","programs"],"all component signatures (names, types, optional/default/into props, generics), name forms and value forms",
 "Tests define a handful of components with one or two props each.",
 ["ast/tag.rs","ast/attribute/kv.rs","ast/ident.rs","expand.rs","expand/subroutines.rs","expand/utils.rs"],
 [("component path parsing",A+"ast/tag.rs Tag::parse"),("turbofish",A+"expand/utils.rs turbofishify"),("builder calls",A+"expand/subroutines.rs component_kv_attribute_tokens, expand.rs component_to_tokens")],
 ["log of the props each component was called with"])
p("C06","Selectors, directives and spreads on a component reach its root element",
 "Selectors, class:, style:, attr:, prop:, on: and use: directives and spreads written on a component are all applied, exactly once and with the written names and values, to the elements the component renders at its root, and are not passed as props. Several id selectors give one id attribute with the ids joined by spaces.",
 ["inputs","programs"],"all combinations of these items on components with and without children and props",
 "Tests check some selectors and one or two directives on one component; on:, prop: and use: are not observable in the HTML the tests look at.",
 ["expand.rs","expand/subroutines.rs"],
 [("component directives",A+"expand/subroutines.rs directive_to_any_attr_path, component_spread_tokens"),("selectors on components",A+"expand.rs component_to_tokens")],
 ["server-rendered HTML of the component","Rust type and Debug output of the attributes the component's root receives"])
p("C07","Component children, closure arguments and clone: behave as written",
 "The children written in a component are what the component gets as its children: rendered as written each time the component calls them, with whatever children type it declares, and not passed at all when none are written. Closure arguments before the children bind the values the component passes, with any irrefutable pattern, and each clone: directive clones the named variable exactly once for the children, leaving the original usable.",
 ["inputs","programs"],"all children, children types, argument patterns, numbers of calls and sets of cloned variables, at any nesting",
 "Tests use one or two argument patterns and clone a single variable.",
 ["ast/element.rs","ast/children.rs","expand.rs","expand/subroutines.rs"],
 [("closure argument parsing",A+"ast/element.rs parse_closure_args"),("children expansion",A+"expand/subroutines.rs component_children_tokens, component_clone_tokens")],
 ["server-rendered HTML","log of child calls, clones and arguments"])
p("C08","Slots are delivered to the parent, in order and complete",
 "Every slot written inside a component is passed to that component through the parameter with the slot's name in snake case, with all its props, children and slots of its own; several slots of one name arrive as a list in source order. Slots and ordinary children may be interleaved freely without affecting each other.",
 ["inputs","programs"],"all numbers, kinds, orders and nestings of slots, with or without props, children, closure arguments and clones",
 "Tests exercise two slot shapes; order between slots, nesting and interleaving are not exercised.",
 ["ast/children.rs","expand.rs","expand/utils.rs"],
 [("slot collection",A+"expand.rs slots_to_tokens"),("slot builder",A+"expand.rs component_to_tokens::<true>"),("snake case",A+"expand/utils.rs upper_camel_to_snake_case")],
 ["log of the slots a component received","server-rendered HTML"])
p("C09","Brackets make values lazy and reactive; braces and literals do not",
 "A value in square brackets (or an f-prefixed one, formatted) becomes a closure that owns what it captures: nothing in it runs while the view is being built, and it is run anew, seeing current state, every time its consumer asks. A value in braces is computed once, when the view is built. This holds in children, attributes, directives and component props alike.",
 ["inputs","histories"],"all positions a value can take, expressions, and histories of building, changing state and reading",
 "Tests compare rendered text once; whether a value was computed too early, too often or frozen is invisible in a single render.",
 ["ast/value.rs"],
 [("value expansion",A+"ast/value.rs Value::to_tokens")],
 ["order of evaluation events relative to the build and render phases","values rendered before and after state changes"])
p("C10","Every embedded expression is evaluated once, in source order",
 "Every embedded expression that is not lazy is evaluated exactly once when the part of the view it belongs to is built, and lazy ones exactly once per use: none is dropped, duplicated or evaluated for a part of the view that is not built. Sibling children are evaluated in source order, and so are the attribute values of one kind (plain attributes or props, or directives) on one element or component.",
 ["inputs","histories"],"all templates and placements of side-effecting expressions",
 "Tests contain no side-effecting expressions, so a duplicated or dropped evaluation, or a reordered one, would pass unnoticed.",
 ["expand.rs","expand/subroutines.rs","ast/value.rs"],
 [("expansion of elements",A+"expand.rs xml_to_tokens"),("expansion of components",A+"expand.rs component_to_tokens")],
 ["log of evaluations with unique identities"])
p("C11","Unsupported or malformed syntax is always rejected, never ignored",
 "Anything in a template that the macro does not support or that is malformed is a compile error wherever it is placed: non-string literal children, unwrapped values, missing values, unknown or misplaced directives and modifiers, unknown value prefixes, selectors, spreads or directives on slots, slots outside a component or with a name that is not a single UpperCamelCase one, closure arguments without a component's children to take them, unterminated elements and stray tokens. No such item is silently dropped.",
 ["inputs"],"all valid templates with one malformed or unsupported construct of any kind at any position",
 "The UI tests hold one example of about twenty mistakes, mostly at the top level of a tiny template.",
 ["ast/element.rs","ast/children.rs","ast/value.rs","ast/ident.rs","ast/attribute.rs","ast/attribute/directive.rs","expand.rs","expand/subroutines.rs","expand/utils.rs","lib.rs"],
 [("parse errors",A+"ast/element.rs Element::parse, ast/children.rs Children::parse"),("expansion errors",A+"expand/subroutines.rs, expand.rs (emit_error!/abort!)")],
 ["diagnostics of the compiler"])
p("C12","The macro never panics, hangs or crashes the compiler",
 "For every sequence of tokens the macro terminates with either an expansion or ordinary error messages: it never panics, never overflows the stack at ordinary nesting depths, and its running time stays moderate in the size of the input.",
 ["inputs"],"all token streams up to a few hundred tokens, including incomplete code as typed in an editor",
 "The tests only feed whole, mostly valid templates; the parser backtracks and unwraps in many places.",
 ["lib.rs","parse.rs","ast/ident.rs","ast/value.rs","ast/element.rs","ast/tag.rs","expand.rs","expand/utils.rs","leptos-mview-macro/src/lib.rs"],
 [("error accumulation","leptos-mview-macro/src/lib.rs mview"),("rollback parsing",A+"parse.rs rollback_err"),("identifier conversion",A+"ast/ident.rs to_snake_ident")],
 ["compiler diagnostics and exit status","CPU time of the expansion"])
p("C13","Error messages point at the offending item, not at the whole macro call",
 "When a template contains a mistake, at least one reported error has its primary span on the offending item (or, for a missing piece, on the element or token it is missing from), inside the innermost element that contains the mistake. An error that the macro reports itself is never attributed to the macro invocation as a whole. For a type error that the compiler finds in the expansion, at least one error is on the offending item or its element.",
 ["inputs","configurations"],"all positions and kinds of mistakes, with and without the nightly feature",
 "The UI tests pin the spans of one example per mistake; spans are chosen separately for each construct and nesting situation.",
 ["span.rs","error_ext.rs","ast/ident.rs","ast/value.rs","expand.rs","expand/subroutines.rs"],
 [("span joining",A+"span.rs join"),("spanned expansion",A+"expand.rs, expand/subroutines.rs (quote_spanned!)")],
 ["primary spans of compiler diagnostics"])
p("C14","Independent recoverable mistakes are all reported in one pass",
 "When a template contains several independent recoverable mistakes (missing values, non-string literal children, unknown directives or modifiers, unsupported items, extra semicolons, missing terminators), every one of them is reported in a single compilation. The failing macro call still stands for an expression, so the surrounding code yields no further syntax errors.",
 ["inputs"],"all sets of two or more recoverable mistakes at independent places of any template",
 "Each UI test looks at few mistakes together, in fixed combinations.",
 ["lib.rs","ast/children.rs","ast/value.rs","expand/subroutines.rs","expand/utils.rs"],
 [("error accumulation",A+"lib.rs mview_impl, emit_error! uses"),("recovery",A+"ast/children.rs Children::parse, ast/value.rs Value::parse_or_emit_err")],
 ["compiler diagnostics"])
p("C15","Expansion is deterministic and the same with and without the nightly feature",
 "Expanding the same template always gives the same code, in every process and however often it is repeated. Whether a template is accepted, and what it expands to, does not depend on the nightly feature or the compiler channel; only the presentation of errors may.",
 ["inputs","configurations","schedules"],"all templates, repeated expansions in fresh processes, and both feature settings and compiler channels",
 "Tests run one configuration, and compare behaviour, not repeated expansions; a hash-ordered expansion passes most of the time.",
 ["expand.rs","lib.rs","leptos-mview-macro/src/lib.rs"],
 [("slot grouping",A+"expand.rs slots_to_tokens"),("feature","leptos-mview-macro/Cargo.toml nightly")],
 ["expanded code printed by the compiler","accept/reject outcome per configuration"])
p("C16","Templates work in any surrounding scope and inside other macros",
 "What a template means does not depend on the names in scope around it: user items, variables, modules and macros that share names with what the expansion uses neither break it nor get captured. Templates can be produced by the user's own declarative macros, with fragments of any kind substituted wherever the corresponding syntax is accepted, in every Rust edition from 2021 on.",
 ["inputs","programs"],"all scopes with clashing names, macro-generated templates and editions",
 "Tests are written in modules that import only the leptos prelude; no test shadows anything or generates templates from macros.",
 ["ast/value.rs","expand.rs","expand/subroutines.rs","span.rs"],
 [("absolute paths",A+"expand.rs, expand/subroutines.rs, ast/value.rs (::leptos, ::std)"),("dummy items",A+"span.rs color_all")],
 ["compile outcome and server-rendered HTML, compared with the same template in a clean scope"])
p("C17","Valid templates expand to code without compiler warnings",
 "A valid template whose embedded expressions are free of warnings compiles without any rustc warning attributed to the template, also under deny(warnings), unused and style lint groups.",
 ["inputs","programs"],"all valid templates under all warn-by-default lints",
 "Tests do not look at warnings.",
 ["lib.rs","expand.rs","expand/subroutines.rs","ast/value.rs"],
 [("lint attributes",A+"lib.rs mview_impl (unused_braces), expand.rs component_to_tokens (unreachable_code)")],
 ["compiler warnings"])
p("C18","Every shorthand means exactly its documented long form",
 "Replacing any shorthand in a template by its documented long form, or the reverse, changes nothing observable: class and id selectors, brace shorthands, bare boolean names, brackets as closures, f values as format! closures, parentheses as braces, omitted turbofish and hyphens as underscores on components.",
 ["inputs","programs"],"all templates and all subsets of their shorthand occurrences",
 "Tests state a few equivalences on one example each.",
 ["ast/attribute/kv.rs","ast/attribute/directive.rs","ast/attribute/selector.rs","ast/value.rs","ast/tag.rs","expand.rs"],
 [("shorthand desugaring",A+"ast/attribute/*.rs, ast/ident.rs BracedKebabIdent, ast/value.rs"),("documentation","README.md")],
 ["server-rendered HTML and view type of both spellings"])
p("C19","A template behaves like the corresponding Leptos view! template",
 "For every template that can also be written with Leptos' own view macro, both give views that render the same document and carry the same listeners, properties, directives, props, children and slots.",
 ["inputs","programs"],"all templates in the common subset of both macros",
 "One or two tests compare with view! output by hand.",
 ["expand.rs","expand/subroutines.rs","ast/tag.rs"],
 [("expansion to the builder API",A+"expand.rs xml_to_tokens, component_to_tokens")],
 ["server-rendered HTML and types of both views"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
