import json
P=[]
def p(id,title,st,over,txt,why,files,mech,observe=None,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,"anchors":a})
ALL=["lib.rs","attributes.rs","bytecode.rs","constant_pool.rs","descriptors.rs","names.rs"]
T="The 30 tests parse two or three hand-compiled class files and a few dozen literal strings; "
p("C01","Parsing any byte sequence terminates normally: no panic, overflow or hang",
 "For every byte sequence and every option setting, parsing returns either a class or an error: it never panics, never overflows an integer, never indexes out of bounds, never recurses deeper than a fixed bound and always terminates. The same holds for every query a user can make on the parsed result, such as iterating the constant pool or looking up an instruction by bytecode offset. Dropping the result is likewise bounded.",
 ["inputs","configurations"],"All byte sequences (any length the machine can hold), both option settings, all later queries on an accepted class.",
 T+"the failing inputs are adversarial ones (table sizes near the integer limits, self-referential pool entries, descriptors cut short) that no sample contains.",
 ALL,[("bounds checks before every read","lib.rs read_u1..read_u8"),("remaining-bytecode bound on switch tables","bytecode.rs read_opcodes"),("reference type checks while linking","constant_pool.rs resolve_constant_pool"),("nesting limits","attributes.rs read_attributes, read_annotation_element_value")],["Result of parse_class"])
p("C02","Constant-pool iteration is total and reports exactly the pool's entries",
 "For every accepted class, iterating over its constant pool yields one item per real entry, in index order, each of the kind and with the contents that the entry's bytes and the entries it refers to denote, and then stops. No placeholder (index zero, the second slot of a long or double) ever shows up as an item, and no accepted class makes iteration fail.",
 ["inputs","histories"],"All accepted classes, every position of the iterator, any number of calls.",
 T+"the iterator tests enumerate the pool of one class file with about ten of the seventeen entry kinds.",
 ["lib.rs","constant_pool.rs"],[("iterator","constant_pool.rs ConstantPoolIter::next"),("entry-to-value conversions","constant_pool.rs utf8, string_literal, classinfo, name_and_type, make_method_handle")],["ClassFile::constantpool_iter"])
p("C03","The input is consumed exactly: no truncation, slack or trailing bytes accepted",
 "A byte sequence is accepted only if the class structure it spells out uses up exactly all of its bytes; a proper prefix or an extension of an accepted input is rejected. Every attribute's declared length equals the number of bytes its contents occupy, at every nesting level, otherwise the input is rejected. For attributes the parser does not know, exactly the declared number of bytes is skipped and returned.",
 ["inputs"],"All byte sequences, every truncation point, every appended suffix, every declared length at every nesting level.",
 T+"they never truncate, extend or relabel lengths, so a missing end-of-data check is invisible.",
 ["lib.rs","attributes.rs"],[("trailing-data check","lib.rs parse_class_with_options"),("declared length vs cursor","attributes.rs read_attributes"),("fixed lengths","attributes.rs ensure_length")],["Result of parse_class"])
p("C04","Multi-byte integers are read big-endian at the current position",
 "Every one-, two-, four- and eight-byte quantity in a class file is read as the big-endian value of exactly the next bytes, the position advances by exactly that many bytes, and a read past the end is an error that consumes nothing it should not. Signed quantities are the two's complement of the same bits and floating-point ones the IEEE value of the same bits.",
 ["inputs"],"All buffers and all positions, including positions at or past the end.",
 T+"small positive values hide byte-order, sign and width mistakes in the high bytes.",
 ["lib.rs"],[("integer readers","lib.rs read_u1, read_u2, read_u4, read_u8")])
p("C05","Constant-pool entries are decoded faithfully, where their version allows",
 "Each pool entry becomes the value its tag and bytes denote: text decoded from modified UTF-8, integers and floats with the exact bits, references with the exact indices and reference kinds, and longs and doubles take two index positions. Unknown tags, tags newer than the class file version, and malformed text are rejected. Every value that refers to a pool entry shows that entry's own contents.",
 ["inputs"],"All pool sizes up to 65535, all tag sequences, all contents, all class file versions.",
 T+"most tag kinds occur at most once, with one version, and no index ever follows a two-slot entry in an interesting way.",
 ["constant_pool.rs"],[("entry readers","constant_pool.rs read_constant_*"),("pool reader","constant_pool.rs read_constant_pool"),("typed accessors","constant_pool.rs read_cp_*")],["ClassFile::constantpool_iter","fields of the parsed class"])
p("C06","Cross-references are accepted exactly when in range and of the right kind",
 "A class is accepted only if every reference inside the constant pool and from the rest of the class points at an existing entry of a kind allowed there, with index zero allowed only where the format makes the reference optional. Names and descriptors reached through those references must satisfy the grammar required by the referring entry, and method handles must agree with their reference kind. No well-formed reference is rejected.",
 ["inputs"],"All pools, all reference graphs over them (including forward, self and cyclic references), all referring structures.",
 T+"no test contains a wrong-kind, out-of-range, forward-cyclic or zero reference.",
 ["constant_pool.rs"],[("linking","constant_pool.rs resolve_constant_pool, ConstantPoolRef::resolve"),("validation","constant_pool.rs validate_constant_pool, ConstantPoolEntry::validate"),("typed accessors","constant_pool.rs read_cp_*")],["Result of parse_class"])
p("C07","Descriptors are accepted exactly per the grammar, and parsed without loss",
 "A field, return or method descriptor is accepted if and only if the whole string matches the descriptor grammar of the class-file format, with at most 255 array dimensions and class names whose segments are non-empty and free of . ; [ / < and >. The parsed form has exactly the dimensions, base types, class names, parameters and result that the text spells. Class names given on their own accept exactly the same slash-separated names.",
 ["inputs"],"All strings, including empty, truncated and over-long ones and any Unicode contents.",
 T+"the descriptor tests use some thirty literal strings; nothing covers dimension limits, trailing text, empty segments or non-ASCII names in general.",
 ["descriptors.rs"],[("grammar","descriptors.rs parse_field_descriptor, parse_method_descriptor, parse_class_descriptor, parse_unqualified_segment"),("recognisers","descriptors.rs is_field_descriptor, is_method_descriptor, is_array_descriptor")],["FieldInfo.descriptor","MethodInfo.descriptor","ClassName::try_from"])
p("C08","Names are accepted exactly when the class-file format allows them",
 "A member name is accepted exactly when it is non-empty and contains none of . ; [ and /; a method name additionally contains no < or > unless it is one of the two special initializer names; a class name is a slash-separated sequence of such names; a module name has no control characters and only properly escaped special characters. The verdict depends on every character of the name, at any position.",
 ["inputs"],"All strings of any length, any Unicode contents.",
 T+"names in the samples are short ASCII identifiers; no test checks a rejected name of each kind, nor positions beyond the first.",
 ["names.rs"],[("name predicates","names.rs is_unqualified_name, is_unqualified_method_name, is_binary_name, is_module_name")],["Result of parse_class on pools with such names"])
p("C09","Bytecode is decoded instruction by instruction, exactly as the bytes spell it",
 "For every accepted code array, the decoded instructions with their offsets partition the array: the first starts at zero, each next one where the previous one ends, the last ends at the array's end. Each instruction is the one its opcode byte denotes, with operands of the right width, sign, wide form, padding and constant-pool kind. An array that cannot be so partitioned, or that contains an undefined opcode, is rejected.",
 ["inputs"],"All code arrays, all opcodes and operand values, every alignment of switch instructions, every constant pool.",
 T+"the samples contain only a few compilers' idioms: most opcodes, wide forms, negative operands and padding alignments never occur.",
 ["bytecode.rs"],[("instruction decoder","bytecode.rs read_opcodes")],["CodeData.bytecode"])
p("C10","Jump targets always land on an instruction, and offset lookup is exact",
 "In every accepted code array, every branch, jump, subroutine jump and switch target, including the default target, is the offset of one of its instructions; code with any other target is rejected, and code without one is not. Looking up an offset gives the index of the instruction starting exactly there, and nothing for any other offset.",
 ["inputs"],"All code arrays, all branch offsets (including those that would overflow 32-bit arithmetic), all looked-up offsets.",
 T+"every sampled branch is valid, so the rejecting side is never executed, and lookups are tried on one array only.",
 ["bytecode.rs"],[("jump validation","bytecode.rs validate_jump, validate_opcode_jumps, validate_jumps"),("offset lookup","bytecode.rs get_opcode_index")],["ByteCode::get_opcode_index","Result of parse_class"])
p("C11","Every known attribute is decoded field by field exactly as its bytes spell it",
 "For each of the attribute kinds the parser knows, at class, field, method, code and record-component level, the decoded value has exactly the entries, in order, with exactly the numbers, flags, names, types and nested values that the bytes and the constant pool denote. Input whose contents are not well-formed for that kind (wrong counts, unknown tags or kinds, wrong constant types) is rejected. Unknown attribute names keep their raw bytes.",
 ["inputs"],"All attribute contents, counts, nesting depths, tags and frame kinds, in every place an attribute can occur.",
 T+"each attribute kind is exercised by at most one hand-made example; most tags, frame kinds and target types never occur.",
 ["attributes.rs"],[("attribute dispatch","attributes.rs read_attributes"),("payload readers","attributes.rs read_*_data")],["AttributeInfo.data"])
p("C12","The class header, members and flags are decoded exactly",
 "For every accepted class the reported versions, access flags, class name, superclass, interfaces, fields and methods are exactly those the bytes denote, in order, with every defined flag bit reported and undefined ones ignored. Input is rejected if the magic number is wrong or if a class, member name or descriptor is not well-formed; an absent superclass is reported as absent.",
 ["inputs"],"All headers, all version numbers, all flag words, all member lists.",
 T+"few flag combinations, versions and member shapes occur, and only accepting paths are run.",
 ["lib.rs"],[("class reader","lib.rs parse_class_with_options"),("members","lib.rs read_interfaces, read_fields, read_methods"),("flag constants","lib.rs bitflags definitions")],["ClassFile","FieldInfo","MethodInfo"])
p("C13","Turning bytecode parsing off changes nothing but the bytecode",
 "With bytecode decoding disabled, any class accepted with it enabled is still accepted and every other part of the result is the same; the only difference is that the decoded instructions are absent and the raw code bytes are kept. Decoding is on by default, and the option can be switched either way.",
 ["inputs","configurations"],"All byte sequences under both option settings.",
 T+"a single test parses one file with the option off.",
 ["lib.rs","attributes.rs"],[("option","lib.rs ParseOptions"),("conditional decoding","attributes.rs read_code_data")],["CodeData.bytecode"])
p("C14","Text and raw bytes are borrowed from the input whenever that is possible",
 "Raw byte ranges in the result (code bytes, unknown attributes, debug extensions) are slices of the input itself at the position they were read from, and text is the decoder's own output for the bytes of its entry, shared or cloned but never altered. Text whose encoding is plain is borrowed from the input rather than copied.",
 ["inputs"],"All accepted classes.",
 T+"borrowed and owned results compare equal, so no assertion on values can tell them apart.",
 ["constant_pool.rs","attributes.rs","descriptors.rs"],[("text entries","constant_pool.rs read_constant_utf8"),("name sharing","descriptors.rs ClassName"),("raw slices","attributes.rs read_attributes, read_code_data")])
p("C15","The thread-safe build behaves exactly like the default build",
 "With the thread-safe feature enabled, every byte sequence is accepted or rejected exactly as without it, with an equal result, and every query on the result gives the same answer.",
 ["inputs","configurations"],"All byte sequences, in both feature configurations.",
 T+"the baseline runs only the default feature set.",
 ["constant_pool.rs","lib.rs"],[("feature-dependent shared cell","constant_pool.rs CafeRc, CafeCell")])
p("C16","Memory reserved ahead of reading is bounded by what the input justifies",
 "Whatever counts and ranges the input declares, the parser never reserves more than a fixed small number of elements, or a number proportional to the bytes actually present, before it has read the corresponding data. A tiny input can therefore not make it allocate huge buffers or abort.",
 ["inputs"],"All byte sequences, in particular short ones with extreme declared counts.",
 T+"samples declare only honest counts.",
 ["bytecode.rs","attributes.rs","constant_pool.rs","lib.rs"],[("pre-sized vectors","Vec::with_capacity at every table reader"),("switch size bound","bytecode.rs read_opcodes")])
p("C17","Class-wide rules: duplicates, bootstrap indices, initializers, modules",
 "An input is rejected if two fields share name and type or two methods share name and signature, and is never rejected for sharing only one of the two. It is rejected if a dynamic constant or call refers to a bootstrap method that the class does not have, if an initializer method has a result or (for static ones, from version 51 on) parameters, or if a module descriptor is older than version 53, has other flags, a superclass, interfaces or members. All other inputs pass these checks.",
 ["inputs"],"All member lists, all dynamic entries and bootstrap tables, all versions.",
 T+"no test has duplicate members, a dangling bootstrap index or an ill-formed initializer.",
 ["lib.rs"],[("duplicate detection","lib.rs read_fields, read_methods"),("bootstrap check","lib.rs validate_bootstrap_methods"),("initializer rules","lib.rs read_methods"),("module rules","lib.rs parse_class_with_options")])
p("C18","Printing a descriptor or class name gives back its exact text",
 "Formatting a parsed field type, field descriptor, return descriptor, method descriptor or class name produces exactly the text it was parsed from. Parsing that text again gives an equal value.",
 ["inputs"],"All accepted descriptors and class names.",
 T+"printing is tested on a handful of literals.",
 ["descriptors.rs"],[("formatting","descriptors.rs Display implementations")],["to_string of descriptors"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
