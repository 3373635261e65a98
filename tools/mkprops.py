#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

XP="xsd-parser/src/parser/"; XG="xsd-parser/src/generator/"; XT="xsd-types/src/types/"

p("C01","Every XSD built-in type becomes its documented Rust type wherever it is used",
 "Every XSD built-in type of the mapping table in the README is rendered as exactly the Rust type the table gives, in every position a type can be named (element, attribute, global element, choice case, list item, restriction base, extension base, union member) and under whatever prefix, or default namespace, the document binds to the XML Schema namespace. A name that only looks built-in - unqualified or qualified with a prefix not bound to XML Schema - is never mapped to a built-in.",
 ["inputs","configurations"],"all built-in names x all positions x all ways of binding the XML Schema namespace (any prefix, several prefixes, default namespace) x user types whose local name equals a built-in's",
 "The golden tests use about eight of the 44 built-ins, almost always with prefix xs in a sequence; the product of name, position and binding is never visited.",
 [XG+"utils.rs",XG+"base.rs",XP+"schema.rs"],[("built-in table lookup",XG+"utils.rs match_built_in_type"),("choice of the prefix that denotes XML Schema",XP+"schema.rs parse_schema")],["types named in generated source"])

p("C02","Type references and XML namespaces follow the schema's own prefix bindings",
 "A reference to a type of the target namespace is rendered as that type's bare Rust name, and a reference qualified with any other prefix is rendered as that type inside the module of that prefix; this depends only on what the prefixes are bound to, not on how they are spelled. Every generated struct and choice enum carries the target namespace and its prefix, and every element field is qualified with the target prefix (or with the prefix of the element it refers to).",
 ["inputs","configurations"],"all schemas built from up to three prefixes, each bound to the target, XML Schema or a foreign namespace, the default namespace bound to each of them or to none, with or without a target namespace, and references in every position",
 "Existing tests fix one prefix layout per golden file; renaming or rebinding a prefix is never tried.",
 [XG+"default.rs",XG+"struct.rs",XG+"enum.rs",XP+"utils.rs"],[("prefix stripped or turned into a module path",XG+"default.rs default_format_type"),("yaserde namespace attributes",XG+"struct.rs macros"),("target prefix of element fields",XG+"default.rs yaserde_for_element")],["type paths and yaserde attributes in generated source"])

p("C03","Occurrence bounds decide exactly one of required, optional or repeated",
 "An element that must occur exactly once becomes a plain field, one that may occur at most once and may be absent becomes an optional field, and one that may occur more than once becomes a list - for every combination of lower and upper bound, written out or defaulted, in sequences, all-groups and choices, for typed, referenced and anonymously typed elements. No other feature of the element - its name, its type's name or the name of the enclosing type - changes that, except that an element of the very type that directly encloses it is always a list; wildcards add no field.",
 ["inputs"],"all minOccurs in {absent,0,1,2,5} x maxOccurs in {absent,0..3,unbounded} x container x element form x names that are prefixes or suffixes of one another, and all pairs and triples of such elements",
 "The golden files contain a handful of bounds; no test crosses both bounds with container and element form, or element and type names with the enclosing type's name.",
 [XP+"element.rs",XP+"sequence.rs",XP+"all.rs",XG+"default.rs"],[("bounds to modifier",XP+"element.rs element_modifier"),("self-recursion detection",XP+"sequence.rs elements_to_fields"),("modifier to type",XG+"default.rs default_modify_type")],["field types in generated source"])

p("C04","Attributes and attribute groups reach exactly the types that declare them",
 "Every attribute a complex type declares, directly or through a reference to an attribute group of the same schema, appears exactly once in the generated struct as an XML attribute field under its declared name (and prefix, for references into other namespaces), required attributes plain, optional ones optional, and prohibited ones or attribute wildcards not at all. This holds whatever the type's content model - none, sequence, all, choice, simple or complex extension - and wherever in the schema the groups are declared.",
 ["inputs"],"all lists of up to three attributes/group references (use x typed/ref/untyped/own simple type) x every content model x every declaration order of types and groups",
 "One golden file uses one attribute reference; no test contains an attribute group at all.",
 [XP+"attribute.rs",XP+"attribute_group.rs",XP+"complex_type.rs",XP+"extension.rs",XP+"types.rs"],[("use to modifier",XP+"attribute.rs parse_attribute"),("group expansion",XP+"types.rs extend_attribute_group"),("group references kept per content model",XP+"complex_type.rs, extension.rs, restriction.rs")],["attribute fields in generated source"])

p("C05","A choice becomes one flattened enum with one variant per alternative",
 "A choice - as the whole content of a type or as one particle of a sequence or all-group - is generated as exactly one enum named after its enclosing type, with one variant per alternative in order, each keeping its XML name and carrying its declared type with its cardinality, plus one catch-all variant that is also the default. The enclosing struct holds exactly one field of that enum, next to all its other fields and attributes. (At most one choice per type; alternatives name their types or refer to elements.)",
 ["inputs"],"all choices of up to three alternatives (typed, referenced, untyped; every cardinality; names that need renaming) as whole content or at each position among up to two sibling particles, with and without attributes",
 "One golden file covers a single top-level choice of two alternatives.",
 [XP+"choice.rs",XP+"complex_type.rs",XP+"sequence.rs",XG+"enum.rs",XG+"enum_case.rs"],[("choice to enum",XP+"choice.rs parse_choice"),("enum plus holder struct",XP+"complex_type.rs parse_complex_type"),("nested choice field",XP+"utils.rs enum_to_field")],["enums and flattened fields in generated source"])

p("C06","A derived type has its own plus all inherited members, in any declaration order",
 "A type that extends or restricts another type of the same schema is generated with its own elements and attributes followed by every member its ancestors contribute through any number of derivation steps, each member name once, the derived type's own declaration winning. The result is the same whatever the order in which the types are declared, and a base outside the schema contributes nothing while leaving the rest intact.",
 ["inputs"],"all derivation forests over up to four types (extension by sequence, all, attributes only, simple content; restriction) x all declaration orders x all small member sets with and without name clashes x bases that are missing, foreign or built-in",
 "Three golden files each use one derivation tree in one (base-first) declaration order.",
 [XP+"types.rs",XP+"extension.rs",XP+"restriction.rs",XP+"mod.rs"],[("pseudo field for the base",XP+"extension.rs complex_content_extension"),("inheritance expansion",XP+"types.rs extend_base"),("order of expansion",XP+"mod.rs parse")],["struct fields in generated source"],[("types map","struct name to partly expanded struct",XP+"mod.rs parse")])

p("C07","Simple types become enums, lists, unions or wrappers of the declared content",
 "A restriction to enumeration values becomes an enum with exactly one variant per value, in order, each bound to its literal value, whenever all values are plain words and otherwise a wrapper of the base type; a list becomes a wrapper of a vector of its item type; a union becomes an enum with one variant per member type in order; any other restriction becomes a wrapper of its base. This holds for named types and, in their own namespace of the generated code, for anonymous ones of elements, list items and union members; the anonymous type of a local attribute becomes a string.",
 ["inputs"],"all simple-type terms up to depth three over restriction/list/union with up to three enumeration values, members or facets, at every place a simple type may occur",
 "The tests contain one enumeration, one union and three wrappers; nested combinations such as lists of unions or unions of enumerations occur at most once.",
 [XP+"simple_type.rs",XP+"restriction.rs",XP+"list.rs",XP+"union.rs",XG+"tuple_struct.rs",XG+"enum.rs"],[("restriction dispatch",XP+"restriction.rs simple_type_restriction"),("list wrapper",XP+"list.rs parse_list"),("union members",XP+"union.rs parse_union")],["tuple structs and enums in generated source"])

p("C08","Generated validation accepts exactly the values that satisfy the facets",
 "For a wrapper type generated from a restriction, validation succeeds exactly on the values that satisfy all of its length, minLength, maxLength, minInclusive, maxInclusive, minExclusive and maxExclusive facets taken together, whatever subset and order of facets is declared. Length facets count characters of strings and items of lists. A type without such facets validates every value, and validation never panics or changes the value. (Facets stated on the type itself, over string, list, integer and floating bases other than NaN.)",
 ["inputs","programs"],"all subsets (up to three, every order) of supported facets with small bounds over string, integer and floating bases x all values around every bound",
 "Unit tests compare the text of single facet snippets; no test compiles and runs a generated validator.",
 [XG+"validator.rs",XG+"tuple_struct.rs",XP+"restriction.rs"],[("facet to check",XG+"validator.rs gen_facet_validation"),("combination",XG+"tuple_struct.rs validation")],["result of calling the generated validate function"])

p("C09","Generated identifiers are valid Rust and never change the XML names",
 "Whatever legal XML names containing a letter or digit a schema uses for types, elements, attributes and alternatives - reserved Rust words, leading digits after a punctuation, dots, hyphens, underscores, any casing - the generated source is syntactically valid Rust whose type names are Pascal case and field names snake case, with reserved words escaped. The original XML name always survives unchanged as the name used in XML, and a declaration and all references to it get the same Rust name.",
 ["inputs"],"all names up to a length bound over an alphabet with one letter of each kind (lower, upper, digit, dot, hyphen, underscore), every Rust keyword in every casing, in every naming position, plus every pair declaration/reference",
 "Unit tests call the name formatter on about ten strings; whether the resulting file still parses is only checked on the golden files.",
 [XG+"default.rs",XG+"utils.rs",XG+"enum_case.rs",XG+"struct_field.rs"],[("type names",XG+"default.rs default_format_type"),("field names",XG+"default.rs default_format_name"),("reserved words",XG+"utils.rs sanitize"),("rename attributes",XG+"default.rs yaserde_for_element")],["identifiers and rename attributes in generated source"])

p("C10","Documentation text only ever produces comments",
 "Adding, removing or changing documentation - any text, of any length, with any line structure, on any schema component that may carry it - never changes the code that is generated, only its comments. The words of plain-text documentation (the first documentation element) of types, fields and enumeration values appear in the comments, in order and unbroken, except that lines of a single character may be left out.",
 ["inputs"],"all documentation texts up to a length bound over words, blanks, line breaks, quotes, comment openers and closers, semicolons and braces x every component that may carry documentation",
 "No test varies documentation; the golden comparison ignores comments altogether.",
 [XG+"default.rs",XG+"utils.rs",XG+"alias.rs",XP+"utils.rs"],[("comment rendering",XG+"default.rs default_format_comment"),("line splitting",XG+"utils.rs split_comment_line"),("where comments are attached",XG+"alias.rs, struct.rs, enum.rs, struct_field.rs")],["token stream and comments of generated source"])

p("C11","Anonymous types are generated once, where their users can name them",
 "Each anonymous complex or simple type of an element is generated exactly once, named after its element, in a module named after the enclosing type, and the field of that element refers to it by that path - at any nesting depth, for any number of siblings, inside sequences, all-groups, extensions and global elements. The members of an anonymous type are the same as if it had been declared as a named type.",
 ["inputs"],"all schema terms up to nesting depth three with up to two anonymous types per level, of every content kind, with equal element names in different enclosing types",
 "Two golden files contain one level of anonymous types each.",
 [XP+"element.rs",XG+"struct.rs"],[("naming of anonymous types",XP+"element.rs parse_field_of_sequence"),("module of subtypes and qualified field type",XG+"struct.rs fields/subtypes")],["modules and paths in generated source"])

p("C12","What is generated for a component does not depend on unrelated components",
 "The code generated for a schema is the concatenation, in declaration order, of the code for its components, and the code of each component depends only on itself and the components it derives from or whose attribute groups it uses. Reordering declarations, adding or deleting unrelated ones, or changing insignificant markup (whitespace, comments, processing instructions, annotations, attribute order, prefix spelling of the schema vocabulary) leaves it unchanged.",
 ["inputs"],"all ordered selections of up to three components from a pool with one component of each kind x all single insignificant edits of the document",
 "Each golden file is one fixed document; no test permutes, drops or reformats anything.",
 [XP+"schema.rs",XP+"mod.rs",XP+"xsd_elements.rs",XG+"mod.rs"],[("one entity per top-level node",XP+"schema.rs parse_schema"),("vocabulary matched by local name",XP+"xsd_elements.rs xsd_type"),("concatenation",XG+"mod.rs generate_rs_file")],["generated source per component"])

p("C13","Generation is a deterministic pure function of the schema",
 "Generating code for a schema gives the same text every time: with a fresh or an already used generator, after any history of other schemas, repeatedly from the same parsed schema, in a different process or concurrently in several threads. Parsing and generating never alter what was parsed.",
 ["histories","schedules","inputs"],"all histories up to length four over (parse, generate with shared generator, generate with fresh generator, regenerate the same parsed schema, clone) on a pool of schemas, repeated across processes with different hash seeds",
 "Every test generates once from a fresh parser and generator.",
 [XG+"mod.rs",XG+"struct.rs",XP+"types.rs"],[("per-file namespace state",XG+"mod.rs generate_rs_file"),("interior mutability of fields",XG+"struct.rs fields")],["generated text"],[("generator namespaces","target and XML Schema namespace of the file being generated",XG+"mod.rs Generator"),("field list","shared mutable fields of a parsed struct",XP+"types.rs Struct")])

p("C14","Custom generator parts replace exactly their own kind of output",
 "A generator assembled from any subset of custom parts, supplied in any order, uses each custom part for every component of its kind and the default for every other kind; supplying the same part twice keeps the last one. Components of other kinds are rendered exactly as without customization.",
 ["configurations","histories"],"all subsets of the eight replaceable parts, all orders of supplying up to three of them, with repetition, on schemas containing every kind of component at top level and nested",
 "No test builds a generator with a custom part.",
 [XG+"builder.rs",XG+"mod.rs",XG+"base.rs"],[("part registration and defaults",XG+"builder.rs GeneratorBuilder"),("dispatch per entity",XG+"mod.rs generate")],["generated text"])

p("C15","Generated code compiles and carries XML documents through unchanged",
 "For every schema within the supported subset (qualified elements; sequences, all-groups and one required choice of named types; attributes of simple types; enumerations, wrappers and lists; derivation that keeps the element order; nesting and recursion), the generated module compiles against the support crates, and every instance document valid for it, with values in canonical spelling, deserializes to a value holding exactly the document's content and serializes back to an equivalent document (same elements, attributes, namespaces, order and text). Reading the output again gives an equal value.",
 ["inputs","programs"],"all schemas of a bounded grammar (one or two types; fields of every cardinality, attributes, choices, enumerations, lists, unions, derivation, nesting) x all their valid instances up to two occurrences per particle",
 "Only three golden directories ever round-trip XML, each with one document for one schema.",
 [XG+"mod.rs",XP+"mod.rs","xsd-macro-utils/src","xsd-types/src/utils/yaserde.rs"],[("whole parser/generator pipeline",XP+"mod.rs parse, "+XG+"mod.rs generate_rs_file"),("serialization derive macros","xsd-macro-utils/src")],["compiler verdict and XML produced by generated code"])

p("C16","A WSDL yields one typed async function per operation, in document order",
 "For every request-response or one-way operation of every port type, with single-part messages, exactly one public async function is generated, named after the operation in snake case, taking a transport and the element of the input message as request and returning the element of the output message (nothing for one-way operations). Which types appear is decided only by the message the operation names, functions follow document order, and the output is valid Rust and identical on every run.",
 ["inputs","configurations"],"all WSDL documents with up to two port types, three operations, three messages (shared, unused, in any order), faults, documentation, bindings, and every prefix layout for target namespace and element namespaces, each in several processes",
 "One golden WSDL with a single port type; the iteration order over several port types is never observed.",
 ["wsdl-parser/src/generator/mod.rs","wsdl-parser/src/generator/function.rs","wsdl-parser/src/parser/definitions.rs","wsdl-parser/src/parser/port_type.rs"],[("function synthesis","wsdl-parser/src/generator/function.rs Function::new"),("message lookup","wsdl-parser/src/parser/definitions.rs get_message_by_param"),("rendering","wsdl-parser/src/generator/mod.rs generate_function")],["functions in generated source"],[("port types","name to port type","wsdl-parser/src/parser/definitions.rs")])

p("C17","The schema command-line tool writes exactly the library's output, file by file",
 "For a single input file the tool writes exactly the generated code for it, to the given output file or to standard output; for a directory (of files with distinct stems) it mirrors the directory tree, one output per input, creating what is missing and completely replacing whatever an output file contained before. If an input cannot be read or parsed the tool exits with failure and leaves outputs it did not generate untouched, and inputs are never modified.",
 ["inputs","histories","fault_sequences"],"all directory trees of up to three files in up to two levels, with output absent, empty or holding longer or shorter old outputs, over histories of up to three runs with inputs edited, removed or made invalid in between",
 "No test runs the executables.",
 ["xsd-parser-cli/src/main.rs"],[("directory walk","xsd-parser-cli/src/main.rs process_dir"),("single file","xsd-parser-cli/src/main.rs process_single_file"),("truncating write","xsd-parser-cli/src/main.rs write_to_file")],["files and exit status"],[("output tree","files written so far","file system")])

p("C18","The WSDL command-line tool emits all embedded schemas and operations",
 "For a WSDL file the tool writes the generated code of every embedded schema, each under its own namespace settings and in document order, followed by the operations' functions, to the given file or to standard output; for a directory it mirrors the tree, fully replacing previous outputs. Malformed input makes it exit with failure without touching other outputs or any input.",
 ["inputs","histories","fault_sequences"],"all WSDL documents with up to three embedded schemas of differing target namespaces and up to two operations x single-file/stdout/directory mode x histories of up to three runs",
 "No test runs the executables or generates more than one schema with one generator.",
 ["wsdl-parser-cli/src/main.rs","wsdl-parser/src/parser/types.rs"],[("per-schema generation with a shared generator","wsdl-parser-cli/src/main.rs process_single_file"),("embedded schemas","wsdl-parser/src/parser/types.rs schemas")],["files and exit status"],[("output tree","files written so far","file system")])

p("C20","Big integers accept exactly their XSD range and keep the value",
 "Each of the five integer types accepts exactly the literals made of an optional sign and one or more ASCII digits whose value lies in its XSD range, at any magnitude, and rejects everything else with an error, never a panic. Printing gives the canonical literal (no plus sign, no leading zeros), which reads back as an equal value; comparison agrees with numeric order and the default value lies in the type's own range.",
 ["inputs"],"all strings up to a length bound over digits, signs and neighbours of the alphabet, all one- and two-edit neighbours of long valid literals, and all ordered pairs of boundary values around powers of 2^64",
 "About five literals per type are tested.",
 [XT+"integer.rs",XT+"non_negative_integer.rs",XT+"positive_integer.rs",XT+"non_positive_integer.rs",XT+"negative_integer.rs"],[("parsing and range check","FromStr of each type"),("printing","Display of each type")],["parse result, printed text"])

p("C21","Decimals accept exactly the XSD grammar, exactly, and print in plain notation",
 "The decimal type accepts exactly an optional sign followed by ASCII digits with at most one decimal point and at least one digit, keeps the exact value at any precision, and rejects everything else (exponents, separators, special values) with an error, never a panic. Every value prints in plain decimal notation that reads back as an equal value.",
 ["inputs"],"all strings up to a length bound over digits, signs, point and neighbours, all edit neighbours of long literals, and all values digits x 10^scale for a range of scales far beyond the tested ones",
 "Two literals are tested, both with few digits.",
 [XT+"decimal.rs"],[("parsing","xsd-types/src/types/decimal.rs FromStr"),("printing","xsd-types/src/types/decimal.rs Display")],["parse result, printed text"])

p("C22","Recurring days and months follow the XSD grammar exactly",
 "gDay, gMonth and gMonthDay accept exactly their XSD literals with in-range fields (day valid for the month, 29 February included) and an optional timezone, yielding those fields and that offset, and reject every other string with an error, never a panic. Printing gives a literal that reads back as an equal value, constructors enforce the same ranges, and the month and day taken out of a month-day keep value and timezone.",
 ["inputs"],"every day/month/offset combination, all strings within two edits of valid literals, and all short strings over the alphabet including a multi-byte character",
 "About twenty literals per type are tested, none with non-ASCII text.",
 [XT+"gday.rs",XT+"gmonth.rs",XT+"gmonthday.rs",XT+"utils.rs"],[("hand-written splitting into value and timezone","FromStr of each type"),("range checks","new of each type")],["parse result, printed text"])

p("C23","Years and year-months follow the XSD grammar exactly for any representable year",
 "gYear and gYearMonth accept exactly their XSD literals - optional minus, four or more year digits (no year zero), month 01 to 12, optional timezone - for every year that fits the value type, yielding those fields and that offset, and reject every other string with an error, never a panic. Printing any constructible value gives a literal that reads back as an equal value, and year and month taken out of a year-month keep value and timezone.",
 ["inputs"],"years of 1 to 11 digits at every digit-count and type boundary x sign x month x offset, all strings within two edits of valid literals, and all short strings over the alphabet including a multi-byte character",
 "About twenty literals per type, none at the limits of the value type.",
 [XT+"gyear.rs",XT+"gyearmonth.rs",XT+"utils.rs"],[("hand-written splitting into sign, value and timezone","FromStr of each type"),("printing","Display of each type")],["parse result, printed text"])

p("C24","Dates are read and written exactly, for every calendar day and timezone",
 "The date type accepts the XSD literal of every calendar day of the proleptic Gregorian calendar the value type can hold, with or without timezone, yielding exactly that day and offset, and rejects impossible days and malformed text with an error, never a panic. Printing any value gives a literal that reads back as an equal value.",
 ["inputs"],"every day of representative leap/common/century/BCE/five-digit years x every kind of offset, all strings within two edits of valid literals, all short strings over the alphabet",
 "About ten literals; negative years only without timezone, none beyond 9999.",
 [XT+"date.rs",XT+"utils.rs"],[("splitting into date and timezone",XT+"date.rs FromStr"),("printing",XT+"date.rs Display")],["parse result, printed text"])

p("C25","Times of day are read and written exactly, including fractions of a second",
 "The time type accepts the XSD literal hh:mm:ss of every second of the day, with an optional fraction and an optional timezone, yielding exactly that time (to the nanosecond) and offset, and rejects out-of-range or malformed text with an error, never a panic. Printing any value gives a literal that reads back as an equal value.",
 ["inputs"],"all 86400 seconds, all fractions up to nine digits by digit count and position, every offset, all strings within two edits of valid literals, all short strings over the alphabet",
 "About ten literals, none with a fraction.",
 [XT+"time.rs",XT+"utils.rs"],[("splitting into time and timezone",XT+"time.rs FromStr"),("printing",XT+"time.rs Display")],["parse result, printed text"])

p("C26","Date-times denote exactly the stated instant and offset and survive printing",
 "The date-time type accepts every XSD date-time literal with a four-digit year, yielding exactly the stated local time and offset (no timezone meaning UTC); the date-time-stamp type accepts exactly those that state a timezone. Both reject impossible fields and malformed text with an error, never a panic, and printing any accepted value gives a literal that reads back as an equal value with the same offset.",
 ["inputs"],"every day of representative years, every hour/minute/second boundary, every offset, fractions of 1-9 digits, presence and absence of the timezone, all strings within two edits of valid literals",
 "About ten literals per type.",
 [XT+"datetime.rs",XT+"datetimestamp.rs"],[("detection of a missing timezone",XT+"datetime.rs FromStr"),("printing",XT+"datetime.rs Display")],["parse result, printed text"])

p("C27","Durations accept exactly the XSD grammar and keep every component",
 "The duration type accepts exactly the XSD duration literals whose components fit its fields - P, then years, months, days, then optionally T with hours, minutes and seconds, each at most once and in order, at least one present, a fraction only on seconds - storing each component, and rejects every other non-empty string with an error, never a panic or a wrapped number. Printing any accepted value gives a literal that reads back as an equal value, and conversion to a machine duration is exact for days to seconds or reports an error.",
 ["inputs"],"all strings up to length seven over the duration alphabet (thorough: eight), all component subsets x boundary numbers around 2^32, 2^63 and 2^64 x fraction lengths, all edit neighbours of full literals",
 "About thirty literals are tested; orderings, omissions and overflows are combinations of six components that tests only touch.",
 [XT+"duration.rs"],[("hand-written state machine",XT+"duration.rs FromStr"),("printing",XT+"duration.rs Display"),("conversion",XT+"duration.rs to_std_duration")],["parse result, printed text, converted duration"],[("parsing context","which designators and digits were seen",XT+"duration.rs ParsingContext")])

p("C28","Timezone designators mean the same in every date and time type",
 "Every date and time type that takes a timezone accepts exactly Z and plus or minus hh:mm with hh:mm from 00:00 to 14:00, and maps it to that signed offset; a timezone never influences the other fields. Equal offsets print equally in all types and read back as the same offset, and anything else after the value is rejected with an error.",
 ["inputs"],"all sign/hh/mm combinations 00-99 x all nine types x base values that themselves contain hyphens or signs, and all suffixes up to length six over the timezone alphabet",
 "Around twenty timezone strings are tested, spread over the types.",
 [XT+"utils.rs",XT+"gday.rs",XT+"date.rs",XT+"time.rs",XT+"datetime.rs"],[("timezone parser",XT+"utils.rs parse_timezone"),("where the value ends and the timezone starts","FromStr of each type")],["parse result, printed text"])

p("C29","Value types read and write the same in every XML position",
 "Every value type, used as a document root, a plain, optional or repeated child element, with or without prefix, or as an attribute, writes exactly its printed literal inside exactly the element or attribute its user names, and reads back the value that literal denotes. The surrounding content - siblings, comments, character sections, insignificant whitespace, empty elements - neither disturbs nor is disturbed by it, and an invalid literal makes reading fail with an error instead of yielding a value.",
 ["inputs"],"all value types x all positions x value pool x all ways of spelling the same content in XML x all sibling arrangements within two deviations",
 "Each type has one round-trip test in one plain position.",
 ["xsd-types/src/utils/yaserde.rs","xsd-macro-utils/src/lib.rs"],[("writing an element",  "xsd-types/src/utils/yaserde.rs serialize"),("reading an element","xsd-types/src/utils/yaserde.rs deserialize"),("derive","xsd-macro-utils/src/lib.rs default_serde")],["XML text, deserialized values"])

p("C30","Wrapper and list newtypes read and write exactly their content",
 "A derived wrapper of a single value reads exactly the literals its inner type reads (for booleans: true, false, 1 and 0) and prints what the inner type prints; a derived wrapper of a list reads items separated by XML white space in order, refuses the text when any item is not a literal of the item type, and prints the items separated by single blanks. Printing and reading back gives an equal value for every list of items that contain no whitespace.",
 ["inputs","programs"],"all wrappers over every supported inner type x all item lists up to length four over a per-type value pool x all whitespace separators up to two characters",
 "One list of strings and one integer are tested.",
 ["xsd-macro-utils/src/tuple.rs"],[("FromStr derive","xsd-macro-utils/src/tuple.rs from_str"),("Display derive","xsd-macro-utils/src/tuple.rs display")],["parse result, printed text"])

p("C31","A union holds the first member type that accepts the text",
 "Reading a union value tries the member types in declaration order and yields the first whose literal the text is, holding the value that member reads; text no member accepts is kept verbatim in the catch-all variant rather than lost or refused. Writing a member variant writes exactly what the member prints, in the element its user names.",
 ["inputs","programs"],"all ordered selections of up to three (in three groups: four) member types from a pool with overlapping literal spaces x all texts of a pool x positions root, child, optional, repeated",
 "One union of three members with two texts is tested.",
 ["xsd-macro-utils/src/union.rs"],[("ordered trial of members","xsd-macro-utils/src/union.rs serde")],["XML text, deserialized variants"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
