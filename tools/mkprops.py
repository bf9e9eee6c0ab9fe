#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook)))
GEN=["genGo.go","genC.go","genJava.go","genRust.go","genTypeScript.go"]
TESTS="The suite converts one 70-line schema (base64.xsd) per language and compares bytes; "

p("C01","Parsing is total: no panic, no hang, on any well-formed document",
"For every well-formed XML document built from XML Schema vocabulary, in any arrangement of elements and whether or not it is a valid schema, processing it for any of the five languages terminates and either succeeds or returns an error. It never panics.",
["inputs","histories"],"every event history (start tag with attributes, end tag, text) the parser can be fed, and every truncation-free document made of them",
TESTS+"no invalid arrangement, no second nesting level and no unsupported construct is ever fed; 41 of 121 functions never run.",
["parser.go","xmlElement.go","xmlComplexType.go","xmlSimpleType.go","xmlGroup.go","xmlAttribute.go","xmlAttributeGroup.go","utils.go"],
[("event dispatch by reflection","parser.go Parse, utils.go callFuncByName"),("stack discipline of the On*/End* handlers","xml*.go")],
[dict(name="SimpleType/ComplexType/Element/Attribute/Group/AttributeGroup/Choice stacks, CurrentEle, InGroup, InUnion, InAttributeGroup",meaning="where in the schema the parser is",where="parser.go Options")],
["return value of Options.Parse"])

p("C02","Every schema component yields exactly one declaration, nothing is lost",
"For every valid schema with distinct component names, the generated source of each language declares exactly one type for each global simple type, complex type, element, attribute, group and attribute group and for each anonymous complex type (under the name of its element, followed by a number where another declaration has that name), and declares nothing else; only an element whose type has the element's own name shares the declaration of that type. This holds whatever other components precede, follow or surround it.",
["inputs","programs"],"all sequences of top-level components over a library covering every component kind and content shape, and all nestings of anonymous types, up to the bounds",
TESTS+"it contains 8 components and one order; whether a component survives depends on parser state left by its predecessors.",
["parser.go","xmlComplexType.go","xmlSimpleType.go","xmlElement.go","xmlGroup.go","xmlAttribute.go","xmlAttributeGroup.go"]+GEN,
[("ProtoTree collection at the end tags","xml*.go End*"),("StructAST once-per-name emission",", ".join(GEN))],
observe=["type declarations in the generated files"])

p("C03","Members of a structured type are all present, in their owner, correctly bound",
"For every valid schema, the declaration of a complex type, group or attribute group has exactly one member per attribute, child element, group reference and attribute-group reference declared directly in it, in whichever compositor, nesting, extension or restriction it occurs, and no member that belongs to another component. Each element and attribute member carries the local XML name it binds to where the language has bindings (Go, Java, Rust), and attributes are marked optional unless use is required (Go, Java, Rust, TypeScript, C comment).",
["inputs","programs"],"all member lists and particle trees up to the bounds, in all owners, in five languages",
TESTS+"at most three members per type, one anonymous type, no group or attribute group at all.",
["xmlElement.go","xmlAttribute.go","xmlAttributeGroup.go","xmlGroup.go","xmlComplexType.go","xmlRestriction.go","xmlExtension.go"]+GEN,
[("append to the innermost open complex type, group or attribute group","xmlElement.go, xmlAttribute.go, xmlGroup.go, xmlAttributeGroup.go")],
observe=["members and binding annotations of the generated declarations"])

p("C04","A member is a collection exactly when it may occur more than once",
"For every content model, a member generated for a child element or group reference is a collection (slice, List, Vec, Array, array) exactly when the element or group may occur more than once there: its own maxOccurs, or that of any compositor (sequence, choice, all) enclosing it within the same type, is greater than one or unbounded, or a sequence holds it twice; an occurrence bound outside the type does not count. When a choice offers the same element or group twice, the one member is a collection if either alternative allows more than one.",
["inputs","programs"],"all particle trees with all placements of maxOccurs in {absent,0,1,2,10,unbounded} up to the bounds",
TESTS+"only one unbounded choice directly over two elements is covered.",
["xmlElement.go","xmlChoice.go","xmlGroup.go","xmlSequence.go"]+GEN,
[("stack of enclosing compositors","xmlChoice.go"),("plural rendering",", ".join(GEN))],
observe=["member types of the generated declarations"])

p("C05","Type references resolve to the declared type, whatever the declaration order",
"For every valid schema, the type generated for an element, attribute, list item, union member, restriction or extension base denotes the type the schema references: following generated aliases it ends at the language type of the built-in type, or at the declaration of the complex, list or union type, that the reference ends at in the schema; an element of a substitution group that gives no type has that of the group's head. Permuting the top-level components, renaming namespace prefixes or making the namespace the default one does not change what any reference denotes (the identifier of a member made by a ref attribute follows the reference as written, prefix included).",
["inputs","programs"],"all reference graphs over up to four named types, every referencing position, every permutation of the top-level components",
TESTS+"every reference in it is to an earlier component or a built-in, over one chain.",
["parser.go","utils.go","schema.go","xmlRestriction.go","xmlExtension.go","xmlUnion.go","xmlList.go","xmlElement.go","xmlAttribute.go"]+GEN,
[("resolution while parsing","parser.go GetValueType"),("late resolution of forward references","utils.go getBasefromSimpleType called by the generators")],
observe=["type names in the generated declarations"])

p("C06","Each built-in type has one mapping, used in every position, wide enough",
"Each XML Schema built-in type is rendered as the same type of the target language in every position where it can be referenced (element, attribute, list item, union member, simple restriction, simple-content extension, inline simple type, group, attribute group). That type is the documented correspondence of the language, and for the bounded integer types its range includes every value XML Schema allows.",
["inputs","configurations"],"all built-in types x all positions x all five languages (a finite space)",
TESTS+"7 of 48 built-in types, in 2 positions, are sampled.",
["utils.go"]+GEN,
[("correspondence table","utils.go BuildInTypes"),("lookup","utils.go getBuildInTypeByLang")],
observe=["type names in the generated declarations"])

p("C07","Generated source is well-formed and refers only to types it declares",
"For every valid schema (of names made of letters, digits, '.', '-', '_') the generated file parses as source of its language (Go output additionally type-checks, with precisely the imports it uses), and every type name used in it is a built-in of that language or is declared in the file, or in the file generated for an imported or included schema. No two declarations in a file and no two members in a declaration share a name.",
["inputs","programs"],"all schemas of the component, particle, reference and name spaces",
TESTS+"generated code is compared as text; only one generated Go file is ever compiled, and no other language.",
GEN,[("rendering",", ".join(GEN)),("import collection","genGo.go GenGo")],observe=["generated files"])

p("C08","Generated Go types read and write back every valid document",
"For every schema whose named complex types begin with an upper-case letter and hold no wildcard or mixed content, and every instance document of it, the generated Go compiles, decoding the document into the generated type of its root element (or of that element's type) and encoding it again yields every element under its local name in its parent, every attribute, every repetition and every value of the document: none is lost, merged, renamed or moved to another parent. Optional parts that the document leaves out may appear with an empty or zero value; the order among elements of different names is not kept. Documents with substituted elements or xsi:type are left out.",
["inputs","programs"],"all schemas of the round-trip families x all instance documents that deviate from the plainest in a bounded number of choices (optional and repeated parts, alternatives, boundary and special values of each type)",
"TestGeneratedGo round-trips one hand-written document through one checked-in struct, which is not even the freshly generated one.",
["genGo.go","utils.go","parser.go"],
[("field types, XML tags, embedding of base types, character data","genGo.go GoComplexType")],observe=["encoding/xml applied to the compiled output"])

p("C09","Splitting a schema over included or imported files changes no resolution",
"When a schema with component names distinct over all files is split over several files connected by include or import, in any graph including cycles, with one file per imported namespace, every reference to a component of another local file denotes the same type as it would if all components stood in one file, and where that is a type of the target language, the same one is generated. Processing terminates for every such graph, and schemas that reference remote or missing locations are reported or left as plain type names, never mis-resolved.",
["inputs","programs","configurations"],"all include/import graphs over up to three files, all placements of the referenced and referencing components, every entry file",
"The suite has no schema with an import or include.",
["parser.go","schema.go","xmlInclude.go","xmlImport.go"],
[("recursive extraction","parser.go GetValueType"),("namespace and location maps","schema.go")],
[dict(name="IncludeMap, NSSchemaLocationMap, LocalNameNSMap, ParseFileMap",meaning="what other files are known, and what was parsed",where="parser.go Options")],
observe=["generated files"])

p("C10","One output per schema, at the mirrored place, nothing elsewhere",
"Processing a file or directory writes exactly one source file per schema file (a named file, or each *.xsd below a directory), at the path that mirrors the schema's place under the input directory with the language's extension added once, in the output directory, which is created as needed; it writes, truncates or creates nothing else and never alters the inputs. A schema pulled in by import is written at its own mirrored place with the requested package name, or not at all.",
["inputs","configurations"],"all small directory trees (depth up to 3) x import edges x spellings of input and output paths x five languages",
TESTS+"input is one flat directory with one file and no import, and the test only reads the file it expects.",
["parser.go","utils.go","genGo.go","cmd/xgen/xgen.go"],
[("output path","parser.go Parse"),("file list","utils.go GetFileList"),("extension","genGo.go FileWithExtension")],
observe=["file system before and after"])

p("C11","Output is a function of the input: same schema, same bytes",
"For every schema or set of schemas and every language, two runs produce byte-identical files; no iteration order, address, time or earlier map content is observable in the generated source.",
["inputs","schedules"],"every order in which every map iterated by the program can yield its keys, for all schemas of the determinism family",
"Go randomises map order, so a test samples one order per run; the suite's schema puts nothing in the maps that are iterated.",
["utils.go","parser.go","xmlUnion.go"]+GEN,
[("sorted member emission","utils.go toSortedPairs"),("include iteration","parser.go GetValueType")],
observe=["generated files"],hook="none in /repo: map iterations are intercepted by a build overlay")

p("C12","A failure to read or write is always reported",
"If any file-system step of processing a schema fails or is cut short (stat, open, read, directory creation, output creation, write), or the document cannot be parsed as XML or ends before its root element does, wherever it is cut, processing returns an error; success is returned only when the complete document was read and the complete output written. After an error, processing the same inputs again without the fault gives the regular output.",
["fault_sequences","crash_points","inputs"],"every single fault at every file-system step of every run in the family, and every proper prefix of every document",
"No test injects a fault or feeds a broken document.",
["parser.go","utils.go","cmd/xgen/xgen.go"]+GEN,
[("error propagation","parser.go Parse, Gen*")],observe=["return value of Parse, exit status, generated file"],hook="none in /repo: os calls are intercepted by a build overlay")

p("C13","Independent parsers may run concurrently",
"Two or more parsers with their own options, run concurrently in one process on different outputs, each produce exactly the result they produce alone; no interleaving causes a data race, a crash, a deadlock or a changed identifier.",
["schedules"],"all interleavings of two parsers (and three with a smaller bound) at every access to shared package state and every lock operation, up to the preemption bound",
"All tests are sequential.",
["utils.go"]+GEN,
[("identifier counters","utils.go fieldNameCount")],
[dict(name="fieldNameCount",meaning="how often an identifier was declared in the current file",where="utils.go")],
observe=["generated files"],hook="none in /repo: shared accesses and locks are intercepted by a build overlay")

p("C14","Documentation never changes code, and stays with its component",
"Adding, changing or removing documentation and other annotation content anywhere in a schema, whatever characters or markup it contains, changes comments only: the declarations generated in each language are the same token for token. The comment of a declaration holds the documentation written directly in that component's own annotation and never that of another component or member.",
["inputs","programs"],"all annotation positions x all documentation texts up to the bound over an alphabet of line terminators, comment delimiters, quotes and markup",
TESTS+"it has no documentation at all.",
["xmlCharData.go","parser.go","utils.go"]+GEN,
[("comment rendering","utils.go genFieldComment"),("attachment of text to the open component","xmlCharData.go OnCharData")],
observe=["generated files"])

p("C15","Only the schema's information counts, not how it is written down",
"Two documents with the same schema information set give byte-identical output: prefix spelling or default namespace (but for the prefix in a ref attribute, which is part of the member's identifier), attribute order and quoting, white space, comments, processing instructions, CDATA, character references, empty-element form, byte order mark and declared encoding are irrelevant. Attributes and elements of foreign namespaces are ignored.",
["inputs","programs"],"all single and pairwise combinations of lexical variations over all schemas of the family",
TESTS+"one spelling of one schema.",
["parser.go","schema.go","utils.go","xmlCharData.go"],
[("token loop and charset reader","parser.go Parse"),("prefix handling","utils.go trimNSPrefix, schema.go")],
observe=["generated files"])

p("C16","The command line does what it says, and its exit status tells",
"For every combination of flags the command exits 0 and prints done exactly when every schema (*.xsd) under the input was converted to the requested language with the requested package name at the requested output (default package schema, default output xgen_out); -h and -v print and exit 0. A missing input or language, an unsupported language, a nonexistent input or a failing conversion yields a message and a non-zero status, without converting anything that the flags did not ask for.",
["configurations","inputs"],"the whole product of flag presence and value classes (finite)",
"cmd/xgen has no test at all.",
["cmd/xgen/xgen.go","parser.go"],
[("flag validation","cmd/xgen/xgen.go parseFlags"),("loop over files","cmd/xgen/xgen.go main")],
observe=["exit status, standard output, file system"])

p("C17","Names become legal identifiers, the same one wherever they are used",
"Every XML name made of letters, digits, '.', '-', '_' (and a prefix) becomes a legal identifier of the target language, never a reserved word, and the identifier of a declaration equals the identifier every reference to it uses. Distinct components never share a declared identifier, nor do distinct members of one declaration: a later one whose identifier is taken gets a numeric suffix.",
["inputs"],"all names up to length four over an alphabet covering each character class, plus all reserved words, in every naming position, and all pairs of colliding names",
TESTS+"camel-case names only.",
["utils.go"]+GEN,
[("identifier construction","gen*FieldName, gen*FieldType, genRustStructName, ToSnakeCase, ToTitle"),("uniqueness counter","fieldNameCount")],
observe=["identifiers in the generated files"])

p("C18","List, union, restriction and enumeration types keep their meaning",
"For every named simple type, the generated declaration is a collection of the item type for a list, has one member per member type with that member's type for a union of named types, and is the base type for a restriction, with any facets in any number and order and wherever the type stands, including inline in an element or attribute. In TypeScript an enumerated type lists exactly the enumeration values of that type, each once, in order.",
["inputs","programs"],"all simple types over varieties x item/member/base types x facet sequences up to the bound x positions (global, inline in element, attribute, nested) x neighbours",
TESTS+"one length facet and one inline enumeration are covered; no list, no union, no named enumeration.",
["xmlSimpleType.go","xmlList.go","xmlUnion.go","xmlRestriction.go","xmlEnumeration.go","xmlPattern.go","xmlLength.go","xmlMinInclusive.go"]+GEN,
[("simple type stack and facet end handlers","xmlSimpleType.go, xml<Facet>.go")],
observe=["generated declarations"])

p("C19","A conversion does not depend on what was converted before",
"The output of converting a schema is the same whether it is the first conversion of the process or follows any sequence of other conversions, successful or failed, in any languages, and whether its output file is new or replaces an earlier, longer or shorter one. Converting again is idempotent.",
["histories"],"all sequences up to the bound of conversions (schema x language x output), including failing ones, in one process",
"Each test converts one schema once per process state and never overwrites a previous output.",
["utils.go","parser.go"]+GEN,
[("per-run reset of counters and parser state","Gen*, Parse"),("truncating creation of output","Gen*")],
[dict(name="fieldNameCount",meaning="identifier counters, package level",where="utils.go")],
observe=["generated files"])

p("C20","Declarations and members keep the schema's order",
"In every generated file the declarations of the schema's top-level components follow the order in which the document declares the components, and within a declaration the elements, the attributes, the group references and the attribute-group references each keep the order in which the type declares them.",
["inputs","programs"],"all schemas of the bounded spaces of components, members, particles and files' own components, and all orders of small sets of components",
TESTS+"a few fixed orders, with at most one member of most kinds.",
["xmlElement.go","xmlComplexType.go","xmlAttribute.go","xmlGroup.go","xmlAttributeGroup.go","parser.go"]+GEN,
[("proto tree in document order","parser.go, End* handlers"),("member stacks","xmlElement.go, xmlAttribute.go")],
observe=["generated declarations and members"])

p("C21","Extraction tells what generation does, and writes nothing",
"With Extract set, Parse of a schema without references to other files writes nothing and leaves in ProtoTree one entry per declaration that generation makes, and no other: of its kind and name, top-level components in document order, elements and attributes in order, Plural exactly when a member repeats, attributes Optional unless required, lists, unions and enumerations with their parts; the Doc of an entry or member is never that of another component. It is the tree that generation with the same options works on.",
["inputs","programs"],"all schemas of the bounded spaces, each parsed with Extract and its proto tree compared with the reference model",
"The tests use Extract only inside imports; none looks at ProtoTree.",
["parser.go","proto.go","schema.go"],
[("Extract switch","parser.go Parse"),("proto tree","Options.ProtoTree")],
observe=["ProtoTree after Parse","file system"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
