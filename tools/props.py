#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SF, CM, YP = "src/StarFile.nw", "src/CifFile_module.nw", "src/YappsStarParser.nw"

prop("C01", "Text values survive being written out and read back",
 "Any text value (without carriage returns) that a data block accepts, as a plain item or as an entry of a looped column, comes back character for character when the file is written in output grammar 1.0, 1.1, 2.0 or STAR2 and the result is read with that same grammar or with automatic detection. This includes text that contains quotes, semicolons, brackets, comment and reserved-word look-alikes, backslashes, or that itself looks like a folded or prefixed text field. Values that need no special syntax are not changed, dropped or merged with their neighbours.",
 ["inputs", "configurations"], "every string up to a length bound over an alphabet of all characters and words that are special to some grammar, in every position, for every output/read grammar",
 "Tests write about ten fixed strings; delimiter choice depends on combinations of characters and on first/last position.",
 [SF, YP], [("delimiter choice and text-field protocols", SF+": _formatstring"), ("line assembly", SF+": CIFStringIO.write"), ("tokens and delimiter stripping", YP+": stripstring/striptextfield")],
 observe=["CifFile.WriteOut()", "ReadCif()"])

prop("C02", "Block, loop, list and table structure survives write and re-read",
 "Writing a file and reading it back reproduces the same data blocks, the same items, the same loops (same sets of column names, same rows in the same order) and the same lists and tables, nested to any depth, with every element and key preserved exactly, in grammars 2.0 and STAR2 (and 1.1/1.0 where no list or table occurs). Empty lists, empty tables, single-row loops and save frames (in grammars that have them) are included. Writing what was read produces the same data again.",
 ["inputs", "configurations"], "every nested list/table shape up to a depth and width bound with adversarial leaf strings and keys, every loop shape up to a column/row bound, every placement among other items",
 "Tests contain one or two fixed nested values and loops; separators and line breaks interact with nesting and leaf form.",
 [SF, YP], [("container output", SF+": format_value"), ("loop output", SF+": format_packets"), ("container parsing", YP+": square_bracket_expr/curly_bracket_expr")],
 observe=["CifFile.WriteOut()", "ReadCif()"])

prop("C03", "Output lines respect the length limits without altering data",
 "For every output length setting, no line of the written file is longer than the maximum output length, as long as every data name, list element and loop entry that cannot be folded fits; and the file read back still holds exactly the same values. Changing the wrap length or maximum length changes only layout, never data.",
 ["inputs", "configurations"], "every combination of wrap length, maximum length and value lengths straddling the limits, with and without spaces, newlines, backslashes and embedded terminators",
 "Tests use the default limits and one or two long strings; off-by-one errors need lengths exactly at the boundary.",
 [SF], [("line assembly", SF+": CIFStringIO.write"), ("folding of over-long text", SF+": _formatstring/apply_line_folding"), ("limits", SF+": SetOutputLength")])

prop("C04", "Line folding and line prefixing are exactly reversible",
 "For every text and every wrap range, removing the folding from the folded text gives the text back unchanged and every folded line stays within the maximum wrap length plus the continuation mark; a text that is short and does not look folded is left as it is. Prefixing every line with any legal prefix and removing it again is the identity, also when combined with folding, and text that is not prefixed or folded is not touched by the removal operations.",
 ["inputs", "configurations"], "every text up to a length bound over {letters, space, tab, newline, backslash, semicolon}, every small wrap range, several prefixes",
 "Tests fold half a dozen fixed strings; backslash/whitespace/newline adjacency decides correctness.",
 [SF], [("apply_line_folding/remove_line_folding", SF), ("apply_line_prefix/remove_line_prefix", SF)])

prop("C05", "Data block edits behave as a case-insensitive map of items and loops",
 "After any sequence of edits to a data block (set, replace, delete, create a loop, add or remove loop columns, reorder), the block holds exactly the items a simple case-insensitive ordered map would hold, each data name is in at most one loop, creating a loop from or adding to it columns of different length is refused, and the item order lists every stand-alone item and every loop exactly once. Deleting the last column removes the loop. An edit that is refused with an error leaves the block's data unchanged.",
 ["histories"], "every sequence of editing operations up to a depth bound over three data names in two spellings, from empty, itemised and looped starting blocks",
 "Tests apply one or two edits each; inconsistencies appear only after particular orders of create/replace/remove.",
 [SF], [("AddItem/RemoveItem/CreateLoop/AddLoopName", SF), ("ChangeItemOrder", SF)],
 [("block/loops/item_order/true_case", "values, loop membership, output order, spelling", SF+": StarBlock")], ["block[...]", "keys()", "GetLoop()", "WriteOut()"])

prop("C06", "Row and column views of a loop always agree",
 "Rows obtained by iterating, indexing or key lookup on a loop hold exactly the column values at that position, in column order; adding a row appends one value to every column, removing a row by key removes exactly the first matching row from every column, and a key lookup returns the one matching row or fails when there is none or more than one. Rows handed out are copies: changing one does not change the loop. Reordering columns changes only their order.",
 ["histories"], "every sequence of row/column operations up to a depth bound on loops of up to three columns and rows with repeated key values, text and numeric entries",
 "Tests touch a loop with one operation each; index and duplicate-key errors need combined histories.",
 [SF], [("LoopBlock packet access", SF+": class LoopBlock"), ("GetKeyedPacket/RemoveKeyedPacket/AddPacket", SF)])

prop("C07", "A collection of blocks behaves as a case-insensitive map with a tree",
 "After any sequence of adding, replacing, deleting, renaming, re-parenting and copying blocks and save frames, lookups, membership, length, listing, parent and child queries and output order agree with a simple reference tree of case-insensitively named blocks; names stay unique, a deleted block takes its save frames with it and nothing else, renaming keeps contents, position and family. In instance scope only data blocks are visible, in dictionary scope all are. Refused operations leave the collection unchanged.",
 ["histories"], "every sequence of collection operations up to a depth bound over three names in two spellings, with and without save frames, in both scopes",
 "Tests do single renames and deletions on a fixed two-level file.",
 [SF], [("NewBlock/__delitem__/rename/set_parent/makebc", SF+": class BlockCollection")],
 [("child_table/visible_keys/lower_keys/block_input_order", "hierarchy, visibility, names, order", SF)])

prop("C08", "Merging follows the chosen mode exactly",
 "Merging one block or file into another in strict mode either adds all new content or is refused because of a conflict and changes nothing; in replace mode the incoming definition wins; in overlay mode blocks that are only in the incoming file are added, and a merge that would have to combine two blocks is refused (the library does not implement it) and changes nothing. In every mode content that is only on one side is kept, items named as match attributes are left alone, and the incoming file is not modified. Loops never end up with columns of different length.",
 ["inputs", "configurations"], "every pair of small blocks/files over shared and unshared names, items and loops, for every mode",
 "Tests merge one pair of fixed blocks.",
 [SF], [("merge", SF+": StarBlock.merge, BlockCollection.merge")])

prop("C09", "The reader accepts exactly CIF 1.0/1.1 syntax and returns its content",
 "For grammars 1.0 and 1.1 a sequence of CIF tokens is accepted exactly when it is a well-formed file (headings, name-value pairs, loops with at least one name and a whole number of rows, no repeated block or data name, no stray values), and an accepted file yields exactly the blocks, items, loops and values it spells out. Every malformed file is refused with the library's syntax error and never with a partial result or another kind of failure.",
 ["inputs"], "every token sequence up to a length bound over one representative of each token class and each quoting form",
 "The tests contain about twenty good and ten bad files; acceptance is decided by token order.",
 [YP, SF, "src/yapps3_compiled_rt.py"], [("1.0/1.1 grammars", YP), ("error conversion", SF+": ReadStar"), ("loop length check", SF+": makeloop")])

prop("C10", "The reader accepts exactly CIF 2.0/STAR2 syntax and returns its content",
 "For grammars 2.0 and STAR2 (lists, tables, triple-quoted text, save frames where the grammar has them) a sequence of tokens is accepted exactly when it is well formed under the published rules, and yields exactly the nested values, blocks and frames it spells out. Every malformed sequence is refused with the library's syntax error.",
 ["inputs"], "every token sequence up to a length bound over bracket, brace, colon, separator, string-form, heading and frame tokens",
 "Tests read a few fixed CIF2 files.",
 [YP, SF], [("2.0/STAR2 grammars", YP)])

prop("C11", "Compiled and interpreted scanners give identical results",
 "Reading the same input with the compiled scanner and with the interpreted scanner gives the same outcome for grammars 1.0 and 1.1: either both refuse it or both return identical blocks, items, loops and values. This holds for every input and regardless of what was read, or failed to be read, before.",
 ["inputs", "histories"], "every character string up to a length bound over the special characters placed in several contexts, every token sequence up to a bound, and all pairs of successive reads including failing ones; inputs crossing the compiled scanner's token-buffer size",
 "The tests run the same eighteen files through both scanners.",
 ["src/lib/star.l", "src/lib/lex.yy.c", "src/lib/py_star_scan.c", "src/yapps3_compiled_rt.py", YP], [("flex rules", "src/lib/star.l"), ("token store", "src/lib/py_star_scan.c")])

prop("C12", "Reads are independent of each other and failed reads leave no trace",
 "The result of reading a file depends only on its bytes and the options given: earlier successful or failed reads, reads with other grammars or scanners, or edits to previously returned files never change it, and results of different reads share no data. A failed read raises the library's error and returns nothing.",
 ["histories", "fault_sequences"], "every sequence of up to three reads over a set of good, bad and truncated inputs, all grammars and both scanners, with mutation of earlier results in between",
 "Tests read one file per process state.",
 [SF, "src/lib/py_star_scan.c", "src/yapps3_compiled_rt.py"], [("ReadStar", SF), ("scanner state", "src/lib/py_star_scan.c: star_clear")])

prop("C13", "Layout, comments, line endings and keyword case never change content",
 "Re-laying out a file (other whitespace or blank lines between tokens, comments between tokens, CR, LF or CR-LF line ends, other quoting of a value that both forms can express, upper or lower case in reserved words) does not change what is read. Reading from a file name, an open stream or a string buffer gives the same result.",
 ["inputs", "configurations"], "every assignment of separators from a set to the gaps of several base files, every line-end style, every case variant of keywords, for every grammar and scanner",
 "Tests use each layout once at most.",
 [YP, SF], [("whitespace/comment tokens", YP), ("line-end handling", SF+": ReadStar")])

prop("C14", "Automatic grammar detection picks the right grammar",
 "With automatic detection a file that begins with the CIF 2.0 marker is read as 2.0 if it is valid 2.0; any other file, and a marked one that is not valid 2.0, is read as 1.1 if it is valid 1.1 and otherwise as 1.0. The outcome equals reading the file explicitly with the grammar chosen, and a file valid under none is refused. Nothing from an attempt with a rejected grammar leaks into the result.",
 ["inputs"], "every file from an enumerated set of token sequences with and without marker, with a failing construct placed in each block position",
 "Tests check three fixed files.",
 [SF], [("grammar fallback", SF+": ReadStar")])

prop("C15", "Templates change layout only, never content",
 "Writing a block with a template (given as a file or text) yields a file with the same data as writing without it; items named in the template come out in template order and the delimiter it shows is used where it can express the value. A value the template's delimiter cannot express is written with another delimiter.",
 ["inputs", "configurations"], "every combination of template layout (item/loop order, delimiter, column) and value from adversarial sets",
 "Tests use one template with benign values.",
 [SF], [("process_template", SF), ("formatting_hints use", SF+": printsection/_formatstring")])

prop("C16", "Illegal names and values are refused; accepted ones are stored",
 "A data name is accepted exactly when it starts with an underscore, contains only the characters allowed by the block's character set and is no longer than the block's name limit; a block name only when within its limit and not a duplicate; a value only when its characters are allowed. With overwriting disabled an existing item or block can not be replaced. Every refusal is an error of the library and leaves the data unchanged.",
 ["inputs", "configurations"], "every character code in name and value position for both character sets, every length around each limit, overwrite on and off",
 "Tests try two bad names and two bad characters.",
 [SF], [("check_data_name/check_item_value", SF), ("NewBlock checks", SF), ("overwrite/lock", SF)])

prop("C17", "Dictionary edits keep definitions, names and categories consistent",
 "After any sequence of adding, removing, renaming and moving definitions and categories in a DDLm dictionary, every definition is found under its own data name (ignoring case) and by its category and object, and under no other name; its category and object attributes agree with its name and its other content is kept; listings of categories, items, children and parents agree with the category attributes, and every definition is reachable from the head category unless reported as dangling. An edit that would give two definitions the same name, put a category below itself or name a category that does not exist is refused or ignored and changes nothing. Writing the edited dictionary puts every definition in the file once, and reading it back gives the same definitions.",
 ["histories"], "every sequence of editing operations up to a depth bound on a small three-level dictionary",
 "Tests apply one edit to a fixed dictionary.",
 [CM], [("rename/change_category/change_name/add_definition/remove_definition", CM), ("WriteOut order", CM)])

prop("C18", "Dictionary imports resolve to the same definitions in every mode",
 "Importing into a DDLm dictionary yields exactly what the import directives and options specify: a contents import gives the definition every attribute (and loop) of the imported frame in addition to its own, and attributes given twice are refused; a full import adds the imported definition and everything below it under the importing category (or the importing head), own definitions being kept, replaced or refused as the duplicate rule says; a missing target is ignored or refused as directed; imports made by imported frames and dictionaries are followed; modes that are not asked for import nothing. Importing without overwriting definitions (heavy=False) shows the same attributes and definitions under the same names. A dictionary with imports can be written and read back with the same definitions.",
 ["configurations", "inputs"], "every combination of import mode, duplicate rule, missing rule and target presence on small generated dictionaries",
 "Tests import one fixed template dictionary.",
 [CM], [("resolve_imports/get_import", CM)])

prop("C19", "DDL1 validation verdicts match the dictionary's constraints",
 "For a DDL1 dictionary and any data block, each check reports a failure exactly when the block violates the corresponding constraint (type, standard uncertainty, enumeration, range, loop status, one category per loop, loop reference, parent and child values, mutually exclusive names, uniqueness), the overall verdict is valid exactly when no check fails, unknown names are listed and do not invalidate, and the data are not altered. With several dictionaries the last definition of a name counts. A validated block can be made from, and accepts, exactly the data that pass.",
 ["inputs"], "every value from exhaustive small value sets against every kind of constraint, and every small block over a small dictionary",
 "Tests check about fifteen fixed cases.",
 [CM], [("validation functions", CM+": validate_*"), ("run_data_checks/Validate", CM)])

prop("C20", "DDLm validation verdicts match the dictionary's constraints",
 "For a DDLm dictionary and any data block, validation fails exactly when a value (or an element of a compound value) is not one of the enumerated states of its definition, an item of a Set category is looped, a loop holds no key of the categories it belongs to, or a loop mixes unrelated categories; and for definitions, when an attribute that the language makes mandatory for their scope is missing or a prohibited one is present. Codes are compared without regard to case, '.' and '?' are always allowed, unknown names are listed without invalidating, and what is validated is not altered.",
 ["inputs"], "every value from exhaustive small value sets against each constraint, every small loop layout",
 "Tests check about six fixed cases.",
 [CM], [("validation functions", CM+": validate_*"), ("optimisation caches", CM+": optimize_on/off")])

prop("C21", "Values are converted to the type their definition declares",
 "A number with optional standard uncertainty converts to exactly the value and uncertainty its text denotes, for every spelling of sign, decimal point, exponent and uncertainty; conversion by definition yields integers, reals, complex numbers, lower-cased codes, lists and matrices with element types as declared, and unknown or inapplicable values stay distinguishable from numbers.",
 ["inputs"], "every numeral built from all combinations of sign, digits, point, uncertainty and exponent parts up to a length bound; every type/container/dimension combination on small values",
 "Tests convert four numbers and five values.",
 [CM, "src/TypeContentsParser.nw"], [("get_number_with_esd", CM), ("convert_type", CM), ("interpret_structure", "src/TypeContentsParser.nw")])

prop("C22", "dREL expressions evaluate to their mathematical meaning",
 "Every dREL expression and statement (arithmetic with precedence and grouping, comparison and logic, lists, tables, subscripts, assignments, if/elseif/else, do, for, repeat, break/next, functions) yields the value defined by the dREL rules, independent of layout, parenthesisation that does not change grouping, and what was evaluated before; an expression outside the language is refused and does not disturb later evaluations.",
 ["programs", "histories"], "every program up to a size bound over operators, literals and statement forms, compared with an independent evaluator; pairs of programs evaluated in succession, including invalid ones",
 "Tests evaluate about fifty fixed snippets.",
 ["src/drel/drel_lex.py", "src/drel/drel_ast_yacc.py", "src/drel/py_from_ast.nw", "src/drel/drel_runtime.nw"], [("lexer", "src/drel/drel_lex.py"), ("grammar", "src/drel/drel_ast_yacc.py"), ("code generation", "src/drel/py_from_ast.nw"), ("runtime", "src/drel/drel_runtime.nw")])

prop("C23", "Derived values are right, complete and independent of request order",
 "When a missing item is requested from a block with an attached dictionary, the value equals what the dictionary's methods, functions and defaults define from the data present, for single items and for every row of a loop, through chains of dependencies, category methods, rows found by key and any alias, and it keeps its kind (number, code, text, list, matrix, table) when stored and read again. Items that exist are never changed, and a request adds only items whose stored values are right themselves, in the loop of their category. What cannot be derived raises an error and stores nothing under that name; circular methods end with that error; and for dictionaries without circular definitions whose items have one method each, the result does not depend on which item was asked for first or on earlier failures.",
 ["histories", "inputs"], "every subset of present items and every order of requests over small dictionaries with chained, branching, circular, looped and aliased definitions",
 "Tests derive about ten quantities from one full file, one request each.",
 [CM, "src/drel/py_from_ast.nw"], [("derive_item", CM), ("recursion tracking", CM+": track_recursion"), ("result storage", CM+": store_new_*")])

prop("C24", "Names resolve through a dictionary the same way however they are spelled",
 "A definition in a dictionary is found by its data name and by category and object name (including the objects of categories below), in any letter case, and always the same definition; a block with an attached dictionary returns the same value for a data name and for each of its aliases, in any letter case and whichever of them the file uses; a row is found by key exactly when a row with that key exists in the category or a category below, with keys compared by the case rule of their declared type, and it carries the values of all those rows under any of their names. Names that nothing provides are reported as missing, and looking names up changes nothing that the file contains.",
 ["inputs", "configurations"], "every spelling of every name, alias and category/object pair over small dictionaries, and every choice of which alias the data uses",
 "Tests look up about six names.",
 [CM, SF], [("alias and category tables", CM+": create_alias_table/create_cat_obj_table"), ("block access", SF+": __getitem__"), ("keyed lookup", CM+": get_key_pack / GetKeyedSemanticPacket")])

prop("C25", "Copies are independent of their originals",
 "A block initialised from or copied from another block, and a copied file, hold equal data at the time of copying, and no later edit of one (values, nested values, rows, columns, order, names, hierarchy) shows in the other; a copy can be edited and written like its original.",
 ["histories"], "every sequence of copy followed by up to two edits on either side, for plain items, loops and nested values",
 "Tests copy once and compare once.",
 [SF, CM], [("copy / constructors", SF+": StarBlock.copy, BlockCollection.copy"), ("CifBlock copy", CM)])

prop("C26", "The example programs do what the library does",
 "validate_cif.py, with any number of dictionaries named by file or found through a dictionary register, in text or HTML, reports every block of a file as valid or invalid, lists its unknown names, and names the items at fault under each violated constraint, exactly as validation against the merged dictionaries (last definition counts) does, and leaves the file alone. star2_to_cif2.py turns any STAR2 file into a CIF2 file with the same blocks, loops and values. loop_example.py writes the chosen columns of a loop, all rows in order, or nothing when one is missing.",
 ["inputs", "configurations"], "every order and choice of up to three dictionaries with every kind of block and output form; every pair of STAR2 values; every small loop",
 "No test runs the programs.",
 ["src/Programs/validate_cif.py", "src/Programs/star2_to_cif2.py", "src/Programs/loop_example.py", CM],
 [("execute_with_options / locate_dic / output_header", "src/Programs/validate_cif.py"), ("do_conversion", "src/Programs/star2_to_cif2.py"), ("validate_report, merge_dic", CM)])

prop("C27", "DDL2 validation verdicts match the dictionary's constraints",
 "Validating a data block against a DDL2 (mmCIF style) dictionary reports, for every item, exactly the constraints that its values break: its type's expression (all of the value, in any case of the letters of the name), uncertainty only where allowed, enumeration, ranges with exclusive ends and single allowed values, loops of one category, items that exclude or depend on each other, parents that list their children's values however the links are written down, unique category keys, and mandatory categories; placeholders and unknown names are never faults, aliases obey the definition of the item, the verdict is the same for a validated block, and validation changes nothing.",
 ["inputs", "configurations"], "every kind of DDL2 definition with about fifty values, every choice of up to three (thorough: four) related names, every family of up to three parent-child links written in six ways with every small column, every small table for category keys",
 "Tests load one DDL2 dictionary and validate nothing against it item by item.",
 [CM], [("DDL2 set up", CM+": DDL2_normalise, create_pcloop, add_ddl2_definition"), ("constraint functions", CM+": validate_*"), ("Validate / ValidCifBlock", CM)])

prop("C28", "A refused text is reported by where it goes wrong",
 "For every text that the reader refuses for its syntax, the error names the last value read from that text and lists the last ten tokens before the place where it goes wrong, in order, each with its kind, its exact text and its place (character position, or line with the compiled scanner); the interpreted scanner also prints the line and column of that place and shows the line with a pointer under it. The place is the first token that no right text could have there, whatever follows it, was read before, or lies between the tokens.",
 ["inputs", "histories"], "every sequence of tokens up to the depth whose proper prefixes can be completed and that cannot itself be, in several layouts, with both scanners and all grammars; long texts, long lines and multi-line values before the place",
 "No test looks at the error for a malformed file.",
 ["src/yapps3_compiled_rt.py", "src/lib/py_star_scan.c", "src/YappsStarParser.nw", SF],
 [("error report", "src/yapps3_compiled_rt.py: print_error, print_line_with_pointer, Scanner.__repr__, get_line_number"), ("compiled scanner's token store", "src/lib/py_star_scan.c: get_last_ten, flex_scan"), ("StarError", SF+": ReadStar"), ("lastval", "src/YappsStarParser.nw: monitor")])

prop("C29", "A generated parser accepts exactly the language of its grammar",
 "For every LL(1) grammar, the module that the bundled parser generator (yapps3) makes accepts every text that the grammar derives and refuses every other text, performing the actions of the derivation in order, whether the scanner is context-sensitive or not, in whatever order the rules are written, with comments, either kind of quotes and brackets or question marks for optional parts; the code written before and after the grammar is kept. A text that is not a grammar is refused, and the generator warns of alternatives that begin alike and of repetitions of what can be empty.",
 ["inputs"], "every rule body up to the depth over terminals, a literal, other rules, alternatives, repetitions, optional parts and parentheses, with several sets of other rules (recursive, nullable, nested), against every text up to the bound",
 "The generator is only exercised by building the package's own grammars.",
 ["src/yapps3/parsetree.py", "src/yapps3/grammar.py", "src/yapps3/yapps2.py", "src/yapps3_compiled_rt.py"],
 [("first and follow sets, code generation", "src/yapps3/parsetree.py: Choice, Sequence, Star, Plus, Option, NonTerminal"), ("grammar of grammars", "src/yapps3/grammar.py"), ("command", "src/yapps3/yapps2.py: generate"), ("runtime", "src/yapps3_compiled_rt.py: Scanner.token, Parser._scan")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    skip = set()
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
