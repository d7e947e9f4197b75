#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
LO, LM = "load_obj result", "load_mtl result"
TOK, TO, TM, MO, MA = "src/tokenizer/mod.rs", "src/tokenizer/obj.rs", "src/tokenizer/mtl.rs", "src/model.rs", "src/material.rs"

p("C01", "Loading any text returns a result: no panic, no hang",
  "For every Unicode string, load_obj and load_mtl return either a value or an error. They never panic, abort, overflow or loop forever, whatever characters, truncated statements or extreme literals the text contains.",
  ["inputs"], "every finite Unicode string given to either entry point, including multi-byte characters inside or next to keywords, cut-off statements and out-of-range literals",
  "The tests feed about seventy well-formed ASCII snippets; a panic needs one specific character or literal at one specific place.",
  [TOK, TO, TM, MO, MA, "src/lib.rs"],
  [("character-level tokenizers", TO + " parse_obj, " + TM + " parse_mtl"), ("number literals", TOK + " parse_digit, parse_float"), ("token splitting", TOK + " TokenSet")],
  [LO, LM])
p("C02", "A model file is loaded whole or refused: nothing is silently dropped",
  "If load_obj succeeds, every statement of the text is one the library supports, is well formed, and has taken effect in the returned model. A text with a statement that is malformed (missing, surplus or wrong-kind arguments), unsupported or unknown anywhere is answered with an error, never with a model that lacks that statement or what follows it.",
  ["inputs"], "every sequence of statements, valid or not, with a bad statement at any position; a stray line of bare words directly after a name list (g, mtllib, maplib) is the documented exception in known-findings.jsonl",
  "Every existing end-to-end test is a fully valid file, so no test distinguishes 'all of it was read' from 'reading stopped early and said Ok'.",
  [MO, TO, "src/lib.rs"],
  [("statement loop and its end-of-input condition", MO + " parse"), ("statement grammars", MO + " parse_vertex .. parse_texture_map")],
  [LO])
p("C03", "Vertex, normal and texture data appear complete and in file order",
  "The model's vertices, normals and textures are exactly the v, vn and vt statements of the text, one entry each, in file order and with their components in the written order. Optional components (w of v; v and w of vt) are present exactly when written, even when equal to a default, and neither duplicates, other statements nor grouping change, merge, reorder or drop entries.",
  ["inputs", "histories"], "every interleaving of v/vn/vt statements with any other statements, every arity they admit, repeated and special values (0, 1, negative, large)",
  "The tests use a single cube (8 distinct vertices without w) and single-statement snippets; interleavings, repeats and optional components mixed between statements are unbounded.",
  [MO], [("accumulation in file order", MO + " parse (fold)"), ("component parsers", MO + " parse_vertex, parse_vertex_normal, parse_vertex_texture")],
  [LO + ": vertices, normals, textures"], [{"name": "vertices/normals/textures", "meaning": "data read so far", "where": MO + " Model"}])
p("C04", "Faces, lines and points keep their references as written",
  "Every f, l and p statement yields one element whose references are, in written order and number, exactly those of the statement. In each reference the vertex, texture and normal numbers land in their own slots, the texture and normal are absent exactly when not written (v, v/t, v//n, v/t/n, and trailing slashes as in v/ or v//), forms may be mixed in one statement, and positive numbers are reported unchanged.",
  ["inputs"], "every statement length from one reference up, every mix of reference forms, every index value in the 32-bit range including repeats",
  "Tests cover five fixed face shapes and two line shapes with indices 1 to 5 and one file with larger ones; trailing-slash forms are only in ignored tests.",
  [MO, TO], [("reference grammar", MO + " parse_face, parse_line, parse_point"), ("slash and integer tokens", TO + " parse_obj")],
  [LO + ": faces, lines, points"])
p("C05", "Relative (negative) references resolve against the data read so far",
  "In f, l and p statements a negative reference -k names the k-th most recent entry at that point of the file and is reported as its absolute 1-based position: vertex references count v statements, texture references vt, normal references vn, read before the statement. Data that come later never change it, and a negative reference that reaches before the first entry is reported unchanged.",
  ["inputs", "histories"], "every interleaving of v, vt, vn with f, l, p and every negative reference, including out-of-range ones",
  "The only test with negative references is ignored; resolution depends on how many entries of each kind precede the statement, which is a property of the whole history.",
  [MO], [("resolution while folding", MO + " parse, resolve_index")],
  [LO + ": faces, lines, points"], [{"name": "counts of v/vt/vn so far", "meaning": "base of relative references", "where": MO + " parse"}])
p("C06", "Each element belongs to exactly the groups current at its statement",
  "A face, line or point is listed exactly once under every name of the most recent g statement before it (a name list may continue on following lines), or under \"default\" when there is none, and under no other group; within each group elements keep file order. Group names are case-sensitive, re-entering a group appends to it, and no other statement changes which groups are current; every group entered, and \"default\", has a settings record.",
  ["inputs", "histories"], "every sequence of group changes, re-entries and elements of the three kinds, interleaved with settings, data and smoothing statements",
  "No end-to-end test contains a g statement at all: everything they load lands in \"default\".",
  [MO], [("current group set and per-group pushes", MO + " parse"), ("default group", MO + " Model::default")],
  [LO + ": keys and lists of faces, lines, points, groups"], [{"name": "current_group", "meaning": "groups that receive elements", "where": MO + " Model"}])
p("C07", "Group settings reach the current groups, last one wins, and persist",
  "usemtl, usemap, bevel, c_interp, d_interp and lod each set their own field (material name, texture map, three on/off flags, level 0 to 100) in the settings of every group current at that point, and of no other group. A later statement of the same kind replaces the value, other kinds leave it alone, a group first entered starts with empty settings, and leaving and re-entering a group keeps what was set.",
  ["inputs", "histories"], "every sequence of settings and group changes, including re-entry of a group that already has settings",
  "Tests check only one usemtl in the default group; bevel, interpolation, lod and usemap are never loaded, nor is any group re-entered.",
  [MO], [("settings applied to current groups", MO + " parse"), ("group entry", MO + " parse (ModelElement::Group)")],
  [LO + ": groups"], [{"name": "groups", "meaning": "per-group settings", "where": MO + " Model"}])
p("C08", "Every face carries the smoothing group in effect at its statement",
  "A face's smoothing group is the number of the latest s statement before it, 0 if there is none, after \"s off\" (any letter case) or after an s word that is neither on nor off, and 1 after \"s on\". The smoothing group is not affected by group, material or any other statement, and changing it never alters faces already read.",
  ["inputs", "histories"], "every interleaving of s statements (any 32-bit number, on/off, unknown words) with faces, group changes and settings",
  "No end-to-end test contains an s statement.",
  [MO], [("current smoothing group", MO + " parse, parse_smoothing")],
  [LO + ": faces[..].smoothing_group"], [{"name": "current_smoothing_group", "meaning": "value stamped on new faces", "where": MO + " Model"}])
p("C09", "Library and shadow/trace names are collected; object names change nothing",
  "The material and texture library lists hold every name given by mtllib and maplib statements respectively, in file order with repeats kept. shadow_obj and trace_obj each report the name of their latest statement and are absent without one, independently of groups; an o statement changes nothing in the model.",
  ["inputs", "histories"], "every sequence of these statements with repeats, in any groups, interleaved with the rest",
  "Tests load one mtllib once; maplib, shadow_obj and trace_obj are never loaded.",
  [MO], [("list accumulation and model-level names", MO + " parse")],
  [LO + ": material_libs, texture_libs, shadow_obj, trace_obj"])
p("C10", "Names are reported verbatim whatever they look like",
  "In model files the argument of g, o, usemtl, usemap, mtllib, maplib, shadow_obj and trace_obj is the rest of its line without surrounding blanks, and in material files the argument of newmtl is the next word; it is reported exactly as written: case, inner blanks, dots, slashes, '#' inside, digits and non-ASCII characters included. This holds even when the name looks like a number or like a statement keyword, and texture file names in material files are likewise verbatim single words, also when they start with digits, dots or signs.",
  ["inputs"], "every non-empty name that does not start with '#' (for texture file names: also not itself a number, keyword or option)",
  "Tests use a handful of lower-case names beginning with a letter.",
  [TO, TM, TOK, MO, MA], [("name lexing", TO + " parse_obj, " + TM + " parse_mtl"), ("number/word boundary", TOK + " parse_float, parse_digit")],
  [LO + ": group, material, library names", LM + ": material and file names"])
p("C11", "Every number literal means its decimal value",
  "Wherever a real number is expected, an optional sign followed by digits with an optional fraction (either side of the point may be empty, not both) and an optional exponent denotes that decimal value, rounded to the nearest single-precision number; whole numbers of any size are accepted there too. Text that is not such a literal is never read as a number, or as several.",
  ["inputs"], "every literal of the grammar, any number of digits, any exponent, all positions of all numeric statements of both file kinds",
  "Nine literals are tested, none with an exponent but no point, none beyond the integer range.",
  [TOK, "src/lib.rs"], [("float and integer lexing", TOK + " parse_float, parse_digit"), ("token to number", "src/lib.rs get_token_float")],
  [LO + ": vertices", LM + ": numeric fields"])
p("C12", "Layout of a model file does not change the model",
  "Comment lines, comments after a statement that ends in a number, blank lines, indentation, trailing blanks, the amount and kind of blanks between arguments, the line ending (LF, CRLF or CR), a missing final line end and the letter case of keywords never change what load_obj returns. Two texts that differ only in these have equal results, including whether it is an error.",
  ["inputs"], "every statement sequence and every combination of the listed layout changes at every position",
  "Tests use LF only, fixed indentation and a few comment lines.",
  [TO], [("whitespace, comment and keyword lexing", TO + " parse_obj")], [LO])
p("C13", "Layout of a material file does not change the materials",
  "Comments on their own line or after a complete statement, blank lines, indentation, trailing blanks, the amount and kind of blanks between words, the line ending (LF, CRLF or CR), a missing final line end and the letter case of keywords and options never change what load_mtl returns. Two texts that differ only in these have equal results, including whether it is an error.",
  ["inputs"], "every statement sequence and every combination of the listed layout changes at every position",
  "Tests use LF, spaces and a few comment lines.",
  [TM], [("whitespace, comment and keyword lexing", TM + " parse_mtl")], [LM])
p("C14", "Each statement affects only the material being defined",
  "load_mtl returns one material per newmtl statement, in file order, also when names repeat. Every other statement sets exactly its own field of the most recently started material: a repeated statement replaces the value, and fields without a statement since that newmtl stay absent.",
  ["inputs", "histories"], "every sequence of newmtl and property statements, repeated names, repeated statements, any order",
  "Every material test loads exactly one material with each statement at most once.",
  [MA], [("material accumulation", MA + " parse, Material::set_from_material_element")], [LM],
  [{"name": "last material", "meaning": "receiver of property statements", "where": MA + " parse"}])
p("C15", "A material file is loaded whole or refused with the right error",
  "If load_mtl succeeds, every statement of the text is supported, well formed and reflected in the result; a malformed, unsupported or unknown statement anywhere, or a text without any statement, gives an error. A text of well-formed statements whose first one is not newmtl gives the dedicated new-material-expected error, and none of its materials.",
  ["inputs"], "every sequence of statements, valid or not, with a bad statement at any position or properties before the first newmtl",
  "No material test expects an error.",
  [MA, TM, "src/lib.rs"], [("statement loop and its end-of-input condition", MA + " parse, parse_material_set"), ("newmtl first", MA + " MaterialError::NewMaterial")], [LM])
p("C16", "Colour statements keep their form, components and defaults",
  "Ka, Kd, Ks, Ke and Tf each accept three forms: three numbers (red, green, blue), 'spectral file [factor]' and 'xyz x [y [z]]', and the matching field reports that form with its components in written order. A missing spectral factor is 1, a missing y or z equals x, and written values are reported as they are (no clamping, also 0, 1, negative or large).",
  ["inputs"], "five statements x three forms x every arity x any numbers and file names",
  "Tests show rgb for most, spectral for three of them, and never xyz, Tf or a factor other than 1.",
  [MA], [("colour grammar", MA + " parse_color_type"), ("field routing", MA + " parse_ambient .. parse_transmission_factor")], [LM])
p("C17", "Scalar material statements report their value in their own field",
  "Ns, Tr, Ni, sharpness and d report their number, 'd -halo n' is reported as halo and 'd n' as alpha, illum reports its integer from 0 to 2147483647 and map_aat its switch, each in its own field. A negative or fractional illum is an error.",
  ["inputs"], "every scalar statement and any number, including 0, 1, negatives and large values",
  "Halo, Tr, sharpness and map_aat are never loaded by a test.",
  [MA], [("scalar parsers", MA + " parse_specular_exponent .. parse_illumination_model, parse_disolve, parse_anti_alias_map")], [LM])
p("C18", "Texture map statements route every option to its own field",
  "map_Ka, map_Kd, map_Ks, map_Ns, map_d, disp (also map_disp) and decal each fill their own field with the file name and exactly the options written, in any order: -blendu, -blendv, -clamp, -cc, -imfchan, -mm base gain, -o, -s and -t with one to three numbers, and -texres. An option not written is absent, components not written are absent, a repeated option takes its last value, an option that the kind of map has no field for changes nothing, and a statement with more than one file name is an error.",
  ["inputs"], "seven statements x every subset and order of options x every arity",
  "Tests use at most one option (-mm, -s with three numbers, -o with three numbers) on four of the statements.",
  [MA, TM], [("option grammar", MA + " parse_options and parse_option_*"), ("option records", MA + " ColorCorrectedMap::new, NonColorCorrectedMap::new")], [LM])
p("C19", "Bump and reflection maps keep their own extra setting and the common ones",
  "bump reports its -bm multiplier and refl its -type next to the file name and common options; bump keeps -imfchan but no colour correction, refl keeps colour correction but no channel. Without -bm the multiplier is absent, without -type the type is empty, and if one of these two is repeated the first one counts.",
  ["inputs"], "both statements x every subset and order of options",
  "Tests load two bump and one refl statement with one option each.",
  [MA], [("BumpMap / ReflectionMap construction", MA + " BumpMap::new, ReflectionMap::new")], [LM])
p("C20", "On/off values are on exactly for \"on\" in any letter case",
  "Each on/off setting (-blendu, -blendv, -cc, -clamp, map_aat, bevel, c_interp, d_interp) is reported true when its word is \"on\" and false when it is \"off\", in any letter case. A statement with any other word there is an error.",
  ["inputs"], "every on/off setting x every word",
  "No test loads an on/off value through to the result; only the tokens are tested.",
  ["src/lib.rs", MA, MO], [("on/off conversion", "src/lib.rs get_on_off_from_str")], [LM, LO + ": groups"])
p("C21", "Loading is a pure function of the text",
  "The result of load_obj and load_mtl depends only on the text given: the same text gives equal results every time, whatever was loaded before (including failed loads), in any order, and while other threads are loading.",
  ["histories", "schedules"], "every history of calls, in any order, mixed between the two entry points and between threads",
  "Each test makes one call; nothing compares repeated, reordered or concurrent calls.",
  ["src/lib.rs", TOK, MO, MA], [("no shared state", "src/lib.rs load_obj, load_mtl")], [LO, LM])
p("C22", "Text appended to a model file never alters what was read before",
  "If a text and the same text with further complete statements appended both load, the longer model's vertices, normals, textures, library lists and every group's element lists start with the shorter model's, entry for entry, and no group disappears. Appending a statement of one kind changes only the parts of the model that this kind addresses.",
  ["histories", "inputs"], "every file and every split of it into a prefix of complete statements and a rest",
  "Tests never load a file and an extension of it; the relation is between two runs.",
  [MO], [("append-only fold", MO + " parse")], [LO + " of consecutive prefixes"])
p("C23", "Text appended to a material file only touches the last material or adds new ones",
  "If a text and the same text with further complete statements appended both load, all materials of the shorter result except its last are unchanged in the longer one, at the same positions. The last one differs at most in the fields set by statements appended before the next newmtl.",
  ["histories", "inputs"], "every material file and every split of it into a prefix of complete statements and a rest",
  "Tests never load a file and an extension of it; the relation is between two runs.",
  [MA], [("material accumulation", MA + " parse")], [LM + " of consecutive prefixes"])
p("C24", "The guarantees do not depend on the size of the file",
  "Long files behave as short ones: with tens of thousands of statements, groups, materials, references in one statement, characters in one name or digits in one literal, the result is still exactly what statement-by-statement reading gives. No count, index or length limit smaller than the 32-bit range of references applies, and a file of a megabyte loads within a minute (the time to load grows in proportion to the text).",
  ["inputs", "histories"], "files, statements, names and literals far longer than hand-written ones",
  "The largest test file has about twenty statements.",
  [TOK, TO, TM, MO, MA], [("token sets and folds", TOK + " TokenSet, " + MO + " parse, " + MA + " parse")], [LO, LM])
p("C25", "Every model and material list can be written down and loaded back",
  "Whatever load_obj or load_mtl returned can be written as a file - every array entry as its statement, every group entered and its settings and elements stated, every set field of every material stated, numbers as stored - and that file loads as exactly the same result again, whichever group comes first, whether data comes before or after the elements that name it by absolute numbers, and whether groups with equal contents are written one by one or as one list. In particular loading, writing and loading again never drifts: no value that can be returned is beyond what the format can say, and an unset field stays unset.",
  ["inputs", "histories"], "every model and every list of materials that some file can produce",
  "Nothing in the tests writes a model down; the relation is between the results of two differently arranged files.",
  [MO, MA, TO, TM], [("what the statements set", MO + " parse, " + MA + " parse")], [LO, LM])
p("C26", "A refusal says which loader refused, why, and can be shown",
  "Every error of load_obj is a tokenizer or model error, never a material error; every error of load_mtl is a tokenizer or material error, never a model error. 'New Material expected' is the error exactly when every statement of a non-empty material file is well formed and the first is not a newmtl; a file that begins with newmtl never gets it. Every error, and every error it was caused by, can be displayed and debug-printed, and its message is not empty, whatever characters the refused text holds.",
  ["inputs"], "every refused text: any malformed statement at any position, any characters",
  "Tests hold no refused file at all, except through the tokenizer.",
  ["src/lib.rs", MO, MA, TOK], [("error types", "src/lib.rs ObjError, " + MO + " ModelError, " + MA + " MaterialError, " + TOK + " TokenizeError")],
  ["the ObjError returned, its Display and its source chain"])
p("C27", "Statements that address different parts can be exchanged",
  "Two adjacent statements of a file, neither of which changes what the other changes or looks at, can be exchanged without changing the result: a data statement with anything but the elements whose negative references count that data and data of its own kind; a group setting with another kind of setting, with an element, or with a library or object statement; an element with an element of another kind; a smoothing statement with anything but faces and smoothing; in a material, two statements that set different fields. Any number of such exchanges, however far they carry a statement, gives the same model or materials again.",
  ["inputs", "histories"], "every file and every sequence of exchanges of adjacent independent statements in it",
  "The relation is between two runs on differently ordered files; every test loads one file in one order.",
  [MO, MA], [("the fold over statements", MO + " parse, " + MA + " parse")], [LO, LM])
p("C28", "Files put one after the other load as their parts put together",
  "The materials of two material files put one after the other are the materials of the first followed by the materials of the second. For models, if the second file begins with a group and a smoothing statement, names no group of the first, and uses only negative references that stay within it (or only absolute references, or none), the joined file's data arrays and library lists are those of the two one after the other, its groups, with their settings and elements, those of both, the shadow and trace objects the last ones named, and the second file's negative references are moved by exactly the number of entries the first file has, its absolute ones not at all.",
  ["inputs", "histories"], "every pair of files",
  "The relation is between three runs; no test loads a file put together from others.",
  [MO, MA], [("accumulation", MO + " parse, Model::get_vertex and relative references, " + MA + " parse")], [LO, LM])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
