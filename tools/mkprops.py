import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("W01","Arithmetic and comparison are exactly the bare-number operation",
"Adding, subtracting, taking the remainder of, negating, multiplying, dividing, compound-assigning and comparing quantities (with each other where scales agree, or with bare numbers where allowed) yields bit-for-bit the value the same operation yields on the stored numbers, for every supported numeric storage type. Operations that overflow, divide by zero or produce NaN behave as the bare operation does (same panic, same NaN).",
["inputs","programs"],"all storage types (f32,f64,i8..i128,isize,u8..u128,usize) x all operators x all operand values, including extremes, zero, NaN, infinities",
"Tests sample a few values of f64 and i32; an operator specialised wrongly for one storage type, one operand order, or one extreme value is not reached.",
["src/arithmetic.rs","src/arithmetic_quantity_types.rs","src/api.rs"],
[("operator impl macros","src/arithmetic.rs"),("per-type instantiation","src/api.rs"),("Mul/Div/Add output aliases","src/arithmetic_quantity_types.rs")],
["values and panics returned by the public operators"])

p("W02","Products and quotients carry exactly the summed/subtracted units",
"The type of a product (quotient) of two quantities has, for each of the eight base dimensions and each scale factor, exactly the sum (difference) of the operands' exponents; addition, subtraction, remainder, negation and scaling by a bare number leave the unit unchanged; dividing a bare number by a quantity inverts its unit. The brand and storage type are preserved by every one of these.",
["programs","inputs"],"all pairs of operand units whose exponents and results are in the supported range, all storage types and brands",
"Each test fixes a handful of concrete unit pairs; the exponent arithmetic is per-dimension type-level code generated for every integer in a range and a wrong entry shows only for the affected pair.",
["src/arithmetic.rs","src/arithmetic_quantity_types.rs","whippyunits-core/src/num.rs"],
[("type-level integer addition/subtraction tables","whippyunits-core/src/num.rs"),("Output types","src/arithmetic.rs")],
["unit exponents reflected from the inferred result type at run time"])

p("W03","Dimensionally, scale-, brand- or storage-incoherent programs never compile",
"A program that adds, subtracts, takes the remainder of, compares, assigns or rescales between quantities of different dimension, brand or storage type, or (without an explicit rescale) of different scale, or that turns a non-erasable quantity into a bare number, or passes it where a generic dimension it lacks is demanded, is rejected by the compiler; the coherent twin of the same program is accepted.",
["programs"],"all programs over the public operators, conversions and macros with one incoherent use, and their coherent twins",
"The compile-fail tests pin a dozen programs; a new blanket impl or relaxed bound that lets one other incoherent pair through leaves them all green.",
["src/arithmetic.rs","src/quantity.rs","src/dimension_traits.rs","src/api.rs","proc-macros/src/value_macro.rs","proc-macros/src/unit_macro.rs"],
[("scale-strict operator impls","src/arithmetic.rs"),("erasure From impls","src/quantity.rs"),("rescale signature","src/scale_conversion.rs")],
["diagnostics of the real compiler on generated programs"])

p("W04","Floating-point rescaling multiplies by the true unit ratio",
"Rescaling a floating-point quantity between any two scales of the same dimension yields the stored value times the exact ratio of the two units, to within a few rounding errors of the storage type, for every representable pair of scales; rescaling to the same scale is the identity and rescaling there and back returns the original to within rounding. Dimension, brand and storage type do not change.",
["inputs","programs"],"all pairs of scales (powers of 2, 3, 5 and pi) reachable from unit expressions, all f32/f64 values including zeros, subnormals, infinities, NaN",
"Tests rescale between a few prefixes; the factor comes from generated tables over two hundred exponents per prime, each entry of which can be wrong on its own.",
["src/scale_conversion.rs","src/api.rs","src/rescale_macro.rs","proc-macros/src/pow_lookup_macro.rs"],
[("aggregate scale factor (float)","src/scale_conversion.rs"),("power tables","proc-macros/src/pow_lookup_macro.rs")],
["value of the rescaled quantity"])

p("W05","Integer rescaling is exact or visibly fails",
"Rescaling an integer quantity multiplies by the exact reduced ratio of the two units (pi taken as 355/113) and truncates toward zero, exactly when the intermediate product fits the storage type, and otherwise within one ratio numerator of the true value. When the true result does not fit the storage type, checked builds panic; no input, of any sign or width, silently yields a different in-range number.",
["inputs","programs"],"all integer storage types x pairs of scales x all values, especially near the type's extremes and for factors wider than the type",
"Tests rescale small positive i32 values by powers of ten; narrow types, negative extremes and mixed numerator/denominator ratios are never exercised.",
["src/scale_conversion.rs","src/api.rs"],
[("overflow heuristic","src/scale_conversion.rs"),("rational reduction","src/scale_conversion.rs")],
["value or panic of the rescale functions"])

p("W06","Erasure to bare numbers accounts for residual scale and angles",
"Converting a dimensionless or pure-angle quantity into a bare number yields its value in plain (unit-one, radian) terms, including any residual scale in its unit, for every permitted source and target numeric type (a change of number type under a residual scale happens in double precision, and every such change truncates and saturates as a cast does); building a dimensionless or angle quantity from a number and erasing it returns the number. Erasing the radian part of a compound quantity changes neither its number nor any other part of its unit.",
["inputs","programs"],"all dimensionless and angular scales, powers of angle in the supported range, all permitted source/target numeric types, all values",
"Tests erase a few ratios and degrees in f64; the conversions are generated per exponent and per type pair.",
["src/quantity.rs","proc-macros/src/generate_all_radian_erasures_macro.rs","proc-macros/src/generate_all_dimensionless_cross_type_macro.rs"],
[("erasure From impls","src/quantity.rs"),("generated angle erasures","proc-macros/src/generate_all_radian_erasures_macro.rs")],
["numeric value after .into()"])

p("W07","Unit expressions mean their algebra, in every notation and at both times",
"Every unit expression built from known units with product, quotient, power, grouping, implicit exponents and powers of ten denotes the unit that algebra assigns to it under the documented precedence (products bind tighter than quotients: everything trailing a division sign, up to the next one, is in the denominator), whichever of the traditional and compact notations is used; the type produced at compile time and the unit obtained from the same text at run time agree. Spellings that only differ in notation denote identical units.",
["inputs","programs"],"all unit expressions of the grammar (bounded depth) over all known unit spellings",
"Tests check a few dozen fixed expressions; precedence, associativity and exponent handling are only wrong for particular combinations.",
["whippyunits-core/src/parser.rs","proc-macros/src/unit_macro.rs","proc-macros/src/quantity_macro.rs","proc-macros/src/compute_unit_dimensions_macro.rs","src/serialization.rs"],
[("expression parser and evaluator","whippyunits-core/src/parser.rs"),("nonstorage factors","whippyunits-core/src/parser.rs")],
["unit exponents and conversion results observed from macros and from run-time text"])

p("W08","Every unit and prefix has its true physical magnitude",
"Each supported unit, under each of its symbols and names and each permitted metric prefix, denotes the dimension and magnitude (and zero point, for temperatures) that the SI, NIST or its customary definition assigns to it, whether written in a macro, a literal, a method or run-time text. No spelling is silently read as a different unit.",
["inputs","configurations"],"all units x all spellings x all permitted prefixes",
"Tests touch a minority of the unit table and mostly print; a wrong digit in one table row, or a prefix taken apart differently for one spelling, is invisible to them.",
["whippyunits-core/src/units.rs","whippyunits-core/src/dimensions.rs","whippyunits-core/src/prefix.rs","whippyunits-core/src/parser.rs"],
[("unit table","whippyunits-core/src/units.rs"),("prefix table","whippyunits-core/src/prefix.rs"),("name resolution","whippyunits-core/src/parser.rs")],
["value and exponents of quantities declared in each unit"])

p("W09","All ways of declaring a quantity agree",
"For every unit available to more than one of the declaration forms (macro, method, literal suffix, run-time text), declaring the same number in the same unit gives the same unit type and, up to rounding, the same stored value, for each storage type the forms share. A declared quantity in a storage unit stores the given number unchanged.",
["inputs","programs"],"all units x declaration forms x storage types x values",
"Tests compare forms for a few metric units; each form is generated by separate code from the unit table.",
["proc-macros/src/generate_default_declarators_macro.rs","proc-macros/src/quantity_macro.rs","proc-macros/src/generate_literals_module_macro.rs","proc-macros/src/define_literals_macro.rs","src/default_declarators.rs","src/serialization.rs"],
[("declarator generation","proc-macros/src/generate_default_declarators_macro.rs"),("macro lowering","proc-macros/src/quantity_macro.rs")],
["stored value and unit exponents of the declared quantity"])

p("W10","Reading a value back in a unit returns the physical value in that unit",
"Reading a quantity's value in any unit of its dimension gives the number of those units the quantity amounts to; in particular declaring a number in a unit and reading it in the same unit returns it up to rounding, and reading in another unit applies the exact ratio (and zero-point shift for temperatures). This holds for every storage type the accessor accepts; integers truncate toward zero, at the conversion to the unit's storage scale and again at the conversion to the unit itself. Affine units (temperatures with a zero point) are read on their own, not inside compound expressions.",
["inputs","programs"],"all units (storage, non-storage, affine, compound) x storage types x values",
"Tests read back a handful of units; non-storage and affine accessors go through separate lowering paths chosen per unit.",
["proc-macros/src/value_macro.rs","proc-macros/src/quantity_macro.rs","src/rescale_macro.rs"],
[("value lowering","proc-macros/src/value_macro.rs"),("rescale macro","src/rescale_macro.rs")],
["number returned by the accessor"])

p("W11","Scale-preferred declarators store in the chosen scales, preserving magnitude",
"In a module of scale-preferred declarators, declaring a quantity by macro, method or literal yields a quantity whose unit is built only from the preferred base scales, carries the module's brand if any, and amounts to the same physical quantity as the default declaration of the same number and unit.",
["programs","configurations","inputs"],"all choices of preferred base scales and brand x all units and unit expressions x values",
"Tests use two or three preference sets and a few units; the rescaling is computed at expansion time per preference set and unit expression.",
["proc-macros/src/define_unit_declarators_macro.rs","proc-macros/src/define_local_quantity_macro.rs","proc-macros/src/local_unit_type_macro.rs","proc-macros/src/generate_local_unit_literals_macro.rs"],
[("local declarator generation","proc-macros/src/define_unit_declarators_macro.rs"),("local unit types","proc-macros/src/local_unit_type_macro.rs")],
["stored value and unit exponents of locally declared quantities"])

p("W12","Serialized quantities denote the same physical quantity when read back",
"Serializing a quantity and deserializing the result into a quantity of the same dimension, of the same or any other scale, yields the same physical quantity up to rounding; the written unit and value, read on their own, denote that quantity.",
["inputs","programs"],"all storable units (any dimension vector and scale), all storage types with serialization, all finite values",
"Tests serialize unscaled base units only.",
["src/serialization.rs","src/print/name_lookup.rs","src/print/prettyprint.rs"],
[("Serialize impl","src/serialization.rs"),("Deserialize impl","src/serialization.rs"),("unit string generation","src/print/name_lookup.rs")],
["JSON text and the quantity read back"])

p("W13","Reading text converts correctly or reports an error, and never crashes",
"Reading a quantity from a string or JSON in any unit of the target's dimension yields the correctly converted value; text whose unit has another dimension, is unknown, or is malformed, or whose value is not a number, is reported as an error and never yields a quantity. No input text whatsoever makes reading or unit formatting panic, overflow the stack or hang.",
["inputs"],"all strings: well-formed values in every unit and expression, and arbitrary, adversarial or corrupted text",
"Tests read a few well-formed strings and two errors; parsers fail on the text nobody wrote a test for.",
["src/serialization.rs","whippyunits-core/src/parser.rs"],
[("string/JSON splitting","src/serialization.rs"),("unit text parser","whippyunits-core/src/parser.rs")],
["returned result or panic"])

p("W14","Formatting in a unit prints the converted value or a mismatch error",
"Formatting a quantity in a run-time unit prints the number of those units it amounts to followed by the unit text as given, honouring the requested precision; a unit of another dimension, or text that is not a unit, prints an error message and neither a number nor a panic.",
["inputs","programs"],"all quantities x all unit texts x precisions",
"Tests format about twenty fixed pairs.",
["src/quantity.rs","src/serialization.rs"],
[("unit formatter","src/quantity.rs")],
["formatted text"])

p("W15","Printed quantities name the unit they are in",
"The plain and debug renderings of a quantity show its stored value (to five significant digits), storage type and brand, with a unit name that, read as a metric unit expression (a prefix before a symbol binds tighter than an exponent), denotes exactly the quantity's dimension and scale, a numeric scale factor being shown to three significant digits. Quantities of different unit never print the same factor-free unit text, and no value is printed as something it is not (a finite number as infinite or NaN, or the reverse).",
["inputs","programs"],"all units (dimension vectors and scales) x values, including tiny, huge, infinite and NaN",
"Tests print values and look at them; printing searches for names by heuristics over prefixes and composite units, and a wrong pick affects particular exponent/scale combinations.",
["src/print/prettyprint.rs","whippyunits-core/src/storage_unit.rs","src/print/display_traits.rs","src/print/name_lookup.rs"],
[("unit literal generation","whippyunits-core/src/storage_unit.rs"),("value formatting","src/print/prettyprint.rs")],
["rendered text"])

p("W16","Generic dimensions accept exactly the quantities of their dimension",
"A user-defined or predefined generic dimension admits a quantity type if and only if the quantity's dimension equals one of the dimension expressions in its definition, whatever the quantity's scale and storage type.",
["programs"],"all generic-dimension definitions (names, symbols, products, quotients, powers, alternatives) x all quantity types",
"Tests define a few traits and use them with matching quantities; acceptance of wrong dimensions needs negative programs.",
["proc-macros/src/define_generic_dimension_macro.rs","src/dimension_traits.rs"],
[("dimension expression evaluation","proc-macros/src/define_generic_dimension_macro.rs")],
["whether a trait bound holds for a quantity type"])

p("W17","Both compiler back ends compute the same thing",
"The stable build and the build using generic constant expressions give identical unit types, values, erasures and printed text for every program both accept.",
["configurations","programs","inputs"],"the two build configurations x the generated workloads of the other properties",
"Each configuration is tested on its own with the same few cases; nothing compares their outputs.",
["src/arithmetic.rs","src/quantity.rs","src/api.rs","src/dimension_traits.rs","whippyunits-core/src/num.rs"],
[("configuration-dependent impls","src/arithmetic.rs")],
["event logs of the same workload under both builds"])

p("W18","Quantities are free at run time",
"A quantity has the size and alignment of its stored number, and declaring, adding, multiplying, comparing, rescaling, erasing or reading quantities performs no heap allocation; the library builds and computes the same values without the standard library and without an allocator.",
["configurations","inputs","programs"],"all storage types, units and core operations; feature configurations default, no-std with alloc, no alloc",
"No test measures size or allocation or builds the reduced feature sets.",
["src/quantity.rs","src/arithmetic.rs","src/scale_conversion.rs","src/lib.rs","src/alloc.rs"],
[("representation","src/quantity.rs"),("feature gates","src/lib.rs")],
["size_of/align_of, allocation counter, feature builds"])

p("W19","The language-server proxy delivers every message, once, in order, unaltered",
"Between editor and language server, in both directions, every framed message is delivered exactly once and in order, each with a correct length header, whatever the chunking, interleaving, header variants (Content-Type, any case) or content, and whatever either side does to its other streams (closing its input after its last message, writing anything to stderr or closing it); a message that displays no quantity types is delivered byte-for-byte, and a message that does keeps its id, method and every field other than the displayed text. The proxy ends when the server ends.",
["schedules","histories","inputs"],"all message sequences in both directions, all chunkings and interleavings of delivery, message bodies with arbitrary JSON and Unicode",
"Tests call the processing function on single messages; the relay's framing and its loss and ordering behaviour run in no test.",
["lsp-proxy/src/main.rs","lsp-proxy/src/lib.rs","lsp-proxy/src/lsp_structures.rs"],
[("relay loop and framing","lsp-proxy/src/main.rs"),("message processing","lsp-proxy/src/lib.rs")],
["bytes at the proxy's stdin/stdout and at a recording stand-in language server"])

p("W20","Tool rewriting of types is faithful and touches nothing else",
"The proxy (rust code of hovers, inlay hint labels) and the command-line pretty-printer (compiler output) show every complete raw quantity type as exactly its unit, storage type and brand (in ASCII notation when Unicode is disabled), show no definite unit for a type whose text does not determine one (elided, truncated, symbolic or `_` arguments), and leave all surrounding text unchanged, byte for byte. A unit! annotation offered as a hint's edit denotes the type that the hint is about. Text without quantity types is passed through unchanged, and no text makes the tools panic.",
["inputs"],"all texts, with any number of well-formed, partial, nested or malformed quantity types, in any surrounding (Unicode) text; all display configurations",
"Tests rewrite a few captured hovers; the rewriting is string slicing whose failure depends on the surrounding text.",
["lsp-proxy/src/unit_formatter.rs","lsp-proxy/src/hover_processor.rs","lsp-proxy/src/inlay_hint_processor.rs","lsp-proxy/src/quantity_detection.rs","whippyunits-pretty/src/rustc_pretty.rs"],
[("type detection","lsp-proxy/src/quantity_detection.rs"),("type formatting","lsp-proxy/src/unit_formatter.rs"),("line rewriting","whippyunits-pretty/src/rustc_pretty.rs")],
["text in and text out"])

p("W21","Run-time unit lookups answer what the spelling means, or nothing",
"Looking up a unit, prefix or dimension by its spelling through the core crate's run-time functions (by literal, symbol or name, with prefix taken apart, or as the dimensions of a unit literal) answers, for every spelling of a known unit, that unit with that prefix, an unprefixed reading taking precedence; for any other text it answers nothing or a unit the text literally spells (a trailing plural s allowed). Each spelling belongs to exactly one unit, whose table entry has its dimension's exponents and its true magnitude.",
["inputs"],"all spellings of all units with all prefixes, and arbitrary text",
"The tests look up eight literals; a prefix symbol that is also the start of a unit (cd, min, Pa, dam) is only taken apart wrongly for particular spellings.",
["whippyunits-core/src/dimensions.rs","whippyunits-core/src/prefix.rs","whippyunits-core/src/units.rs","whippyunits-core/src/parser.rs","src/serialization.rs"],
[("literal lookup","whippyunits-core/src/dimensions.rs"),("prefix stripping","whippyunits-core/src/prefix.rs"),("literal dimensions","src/serialization.rs")],
["results of the public lookup functions"])

p("W22","Macros answer meaningless arguments with an error that names the problem",
"Every macro answers a meaningless argument (an unknown or misspelt unit, dimension or scale, a malformed or incomplete expression, exponents too large to represent, a scale of another dimension, a wrong number of arguments) with a compile error at the invocation: never by panicking, and never by accepting it as something else. A message about an unknown name quotes that name, and every name it suggests is accepted in that place. Meaningful arguments are accepted.",
["inputs"],"all argument texts of the unit, quantity, dimension, scale and local-unit macros",
"The tests compile meaningful invocations only; nothing looks at what a wrong one does, and a macro that panics, or accepts a typo as another unit, passes them all.",
["proc-macros/src/unit_macro.rs","proc-macros/src/define_generic_dimension_macro.rs","proc-macros/src/local_unit_type_macro.rs","proc-macros/src/utils","proc-macros/src/quantity_macro.rs","proc-macros/src/value_macro.rs"],
[("unit expressions","proc-macros/src/unit_macro.rs"),("dimension expressions","proc-macros/src/define_generic_dimension_macro.rs"),("scale names","proc-macros/src/local_unit_type_macro.rs"),("suggestions","proc-macros/src/utils")],
["rustc diagnostics of each invocation, by span"])

p("W23","Constants hold what the same expression computes at run time",
"A quantity that is declared by macro (in a storage unit, or in any unit with a stated storage type) or by constructor, rescaled, or read in a unit inside a constant, a static or a constant function is accepted there and is bit for bit (NaN payloads aside) what the same expression yields at run time. An integer rescale that would panic at run time is a compile error in a constant, never a wrong constant.",
["inputs"],"all declarations, rescalings and readings that have a storage type, over all values",
"The tests evaluate at run time only; the compiler's evaluation takes another route (constant functions, lookup tables, const floating point) that can refuse or differ for particular scales, storage types and values.",
["src/scale_conversion.rs","src/api.rs","src/rescale_macro.rs","proc-macros/src/quantity_macro.rs","proc-macros/src/value_macro.rs"],
[("constant rescaling","src/api.rs"),("scale factors","src/scale_conversion.rs"),("reading","proc-macros/src/value_macro.rs")],
["value of the constant and of the run-time expression"])

p("W24","Macros evaluate their arguments once, as written, in the caller's scope",
"The value, quantity or text given to quantity!, value!, rescale!, from_string!, from_json! or a local scale's quantity! is evaluated exactly once, as a whole, where it is written (its ?, return, break and continue act on the caller), and the result is what the macro makes of that value bound to a variable beforehand, also when the call is written by the caller's own macro. The call compiles and means the same in a crate that depends on whippyunits alone, without default compiler warnings, in whichever module it stands (a local scale's quantity! and literals too), whatever items or variables the caller has in scope, such as ones named like a unit or like the library's types (exceptions: renaming whippyunits, core, std or a primitive; a trait whose method on the same number type has a unit's name; lower-case constants or unit structures named like a macro's own variables).",
["inputs"],"all argument expressions and all scopes a call may stand in",
"The tests pass literals and simple variables in crates that import everything; evaluation count, precedence, control flow and name capture only show with other arguments and scopes.",
["proc-macros/src/quantity_macro.rs","proc-macros/src/value_macro.rs","src/rescale_macro.rs","src/serialization.rs","proc-macros/src/define_unit_declarators_macro.rs"],
[("value in the expansion","proc-macros/src/quantity_macro.rs"),("quantity in the expansion","proc-macros/src/value_macro.rs"),("text in the expansion","src/serialization.rs"),("local quantity!","proc-macros/src/define_unit_declarators_macro.rs")],
["evaluation counter, control-flow log, resulting type and bits"])

p("W25","Exponent vectors obey the algebra of dimensions; their names denote them",
"Adding, subtracting, negating and multiplying exponent vectors, scales and type-level numbers yields, at run time and at type level alike and throughout the documented range, the vector that the algebra of dimensions gives, and the tests on them (zero, basis, equality, logarithm, dimension lookup, matching of dimensions, conversion factor between scales) agree with it. Every name or notation generated for a vector (storage unit names, unit literals, systematic names, dimension names, superscripts) denotes exactly that vector. An error about mismatched dimensions names the one expected and the one found, in these roles.",
["inputs","programs"],"all exponent vectors, scales and type-level numbers within the documented range, and all pairs of units",
"The tests add a few vectors at run time and a few numbers at type level; a wrong table row, a lane mixed up or a name that belongs to another vector shows only at particular exponents.",
["whippyunits-core/src/dimension_exponents.rs","whippyunits-core/src/scale_exponents.rs","whippyunits-core/src/num.rs","whippyunits-core/src/storage_unit.rs","whippyunits-core/src/dimensions.rs","src/serialization.rs"],
[("vectors","whippyunits-core/src/dimension_exponents.rs"),("scales","whippyunits-core/src/scale_exponents.rs"),("type-level numbers","whippyunits-core/src/num.rs"),("names","whippyunits-core/src/storage_unit.rs"),("mismatch and conversion of dimensions","src/serialization.rs")],
["results of the public functions and operators, and the values of result types"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
