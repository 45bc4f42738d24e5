"""writes MANIFEST.json"""
import json
V = __file__.rsplit("/scripts/", 1)[0]
NOTE = {
 "C01": "Every function of the crate verified panic-free, overflow-free, in bounds and terminating (loop and recursion measures) for all inputs; recursion depth bounded by contract. Stack use itself and allocator failure are not modelled.",
 "C02": "Postcondition of the iterator's next (step relation) and of ClassFile::constantpool_iter against the pool specification, under the class invariant every accepted parse establishes; theorem_items: stepping so yields exactly the non-text, non-placeholder entries in index order and then stops; theorem_places: placeholders are index 0 and the slots after long/double.",
 "C03": "parse_class succeeds iff the class specification consumes exactly bytes.len(); every attribute arm and nested table is specified to end at its declared length; theorem_exact: a proper prefix or an extension of an accepted input is never accepted (prefix stability of every reader).",
 "C04": "read_u1..read_u8 and their callers against big-endian arithmetic specifications; f32/f64::from_bits uninterpreted.",
 "C05": "Every constant reader and read_constant_pool/resolve against a recursive pool specification; the modified-UTF-8 decoder of the dependency is an uninterpreted function of its bytes.",
 "C06": "Pool validation and every read_cp_* accessor against an if-and-only-if specification of kinds, ranges, names and reference kinds.",
 "C07": "Descriptor parsers against a recursive grammar specification, in both directions; theorems: a text is accepted exactly when it is the rendering of a value of the (declarative) grammar, and is read as that value; class names on their own likewise.",
 "C08": "Name predicates against quantified specifications over every character of the name; theorem_binary_name gives the binary-name recursion a declarative form.",
 "C09": "read_opcodes against a recursive decoder specification over the whole code array; theorem_partition(_unique): the decoded instructions partition the array, each being what its bytes denote, and any such partition is the one decoded.",
 "C10": "validate_jump, get_opcode_index and the jump loops against membership in the decoded offsets, in both directions.",
 "C11": "Every attribute reader against its field-by-field specification; read_attributes dispatches by name to those.",
 "C12": "Class header, flags, fields and methods of parse_class_with_options against the class specification; bit tables checked constant by constant.",
 "C13": "The specification takes the option as a parameter; theorem_option: the two results agree in everything but the bytecode.",
 "C14": "Raw ranges specified as subranges of the input at their position; text as the decoder's result for the entry's bytes. Which Cow variant std/cesu8 return is the dependency's (bounded check only).",
 "C15": "The same functional contracts are discharged for both feature configurations, hence equal results; obligations that hold in one only are reported.",
 "C16": "Precondition on every Vec::with_capacity: at most 65536 elements or the number of bytes still present.",
 "C17": "Duplicate tables, bootstrap limits, initializer and module rules in the class specification, in both directions; theorems that fields and methods come out pairwise distinct.",
 "C18": "Display implementations against the specified rendering; theorems that the rendering of a parsed descriptor is its text and that parsing that text again gives an equal value.",
}
NA = {}
checks = []
for p, n in NOTE.items():
    if p in NA:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "contract-based deductive verification of the real code with Verus (functions extracted mechanically from /repo on every run); a failed obligation is replayed as a concrete input by a differential search",
        "level": "proof",
        "level_note": n,
    })
json.dump({
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "hooks": {"guard": "none: /repo carries no hooks; the checks read its sources and build it as it is", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
}, open(V + "/MANIFEST.json", "w"), indent=1)
