EX = "exhaustive bounded enumeration on the real code against a reference model"
BFS = "explicit-state breadth-first search over operation histories of the real objects, compared with a reference model"
C = {
 "C10": (EX, "exploration", "every token sequence of lists, tables, frames and values up to the depth, both grammars, decided by a reference recogniser; values separated by white space or list punctuation"),
 "C11": ("exhaustive differential exploration of both scanners over bounded inputs and read histories", "exploration", "every string and token sequence up to the bounds, token counts and lengths around the buffer sizes, all pairs of earlier reads"),
 "C12": ("exhaustive enumeration of read histories, truncations, one-character corruptions and source failures", "model_checking", "every sequence of up to three reads over good and bad inputs and all options, compared with the same read in a fresh process"),
 "C13": (EX, "exploration", "every assignment of separators to the gaps of the base files, every keyword spelling, delimiter form and kind of source"),
 "C14": (EX, "exploration", "every word sequence up to the depth with and without marker, decided by reference recognisers of all three grammars"),
 "C05": (BFS, "model_checking", "every operation sequence to the depth over three names in two spellings from four starting blocks; assigning a plain value to a loop column is out of domain"),
 "C06": (BFS, "model_checking", "all row, column, lookup and reordering operation sequences on loops of one to three columns and at most three (thorough: four) rows, text, numeric and mixed, built in code or read"),
 "C07": (BFS, "model_checking", "all sequences of collection edits to the depth over three names in two spellings; frames and data blocks do not share names"),
 "C08": (EX, "exploration", "every pair of small blocks and of small block and frame trees, every mode; merged frames and blocks do not share names"),
 "C25": ("exhaustive enumeration of copy-and-edit histories on the real objects", "model_checking", "every way of copying, every sequence of up to two (thorough: three) edits on either side; a block assigned to a file stays shared by design"),
 "C15": (EX, "exploration", "every template layout of up to three items and loops with marker, name overlaps and odd delimiters, every re-wrapped text up to the bounds, written and read back"),
 "C16": ("exhaustive enumeration of code points, lengths and edit histories on the real objects", "exploration", "every code point in every name and value position under both character sets, every name length around the limits, every sequence of up to two (thorough: three) edits of which each may be illegal; the 32 noncharacters above U+FFFF in values and names of only an underscore are not decided"),
 "C22": (EX, "exploration", "every token sequence of operators and containers to the depth, every expression and statement tree of the bounded grammars, literal, layout and function form, evaluated on the real compiler and compared with an independent parser and evaluator; histories of good and refused programs; multi-line string literals, aliasing of lists and exponent numbers without a point are not decided"),
 "C23": ("exhaustive enumeration of request histories over families of small dictionaries, on the real objects against a reference derivation", "model_checking", "every dependency graph to the bound with every subset of present items and order of requests; every order of up to two (thorough: three or four) requests over rows, loop statements, keyed rows, category methods, functions, indexed defaults, sums over other loops and every kind of value; methods computing with unknown values and complex values are not decided"),
 "C21": (EX, "exploration", "every text to the length bound over the characters numerals are made of, numerals of every form with exact rational comparison, every type with single values, lists, matrices and tables, and numbers given from Python, written and read; Binary/Hexadecimal/Octal text, quoted question marks, integers with uncertainty and words that only Python reads as numbers are not decided; a column with an unknown value stays text by design"),
 "C24": (EX, "exploration", "every spelling of every category, object and data name over ten category trees, every choice of which alias the data use, every lookup of rows by key over chains and fans of categories; aliases are looked up through a block (a dictionary itself answers only to the definition's own name); unknown values stored under an alias are out of domain"),
 "C17": (BFS, "model_checking", "every sequence of up to two (thorough: three) edits of two small dictionaries, loaded fully or minimally, compared with a reference tree after the last edit and again after writing and reading; references between definitions (category keys, linked items, aliases) are not renamed by the library and not compared; an edited dictionary is read back without dREL"),
 "C18": (EX, "exploration", "every combination of attributes, import references, modes and rules for duplicate and missing targets over three small dictionary files; which of two clashing values a dynamic (heavy=False) import shows, clashes below the imported frame, a head imported into an ordinary category and files that import each other are not decided"),
 "C19": (EX, "exploration", "every kind of definition (type, expression, uncertainty, enumeration, range, looping) with about 50 values alone and in loops and, for numbers, 1400 numerals; every choice of up to three (thorough: four) names in a loop over ten linked definitions; every pair and triple of parents and children with every small column; every small set of rows for unique values; validated blocks; two dictionaries. Expected verdicts come from a second reading of the definitions in the check. _list_mandatory is not enforced by the library and not decided; deprecated AddCifItem with several names is not used"),
 "C20": (EX, "exploration", "every enumeration with every single and compound value, alone and in loops; every choice of up to four (thorough: five) names in a loop over three category trees, in several orders and cases; every combination of rules for a scope with every small set of attributes in definitions of every scope. The library does not compare DDLm values with their type, range or uncertainty, does not look for repeated keys, and does not merge several DDLm dictionaries: none of these is decided"),
 "C26": (EX, "exploration", "the programs themselves are run, with real arguments in a scratch folder: every order of up to three small dictionaries with nine kinds of data, as text and HTML, from files and from a file: register; every pair of thirteen STAR2 values and dictionaries with the optional comment and description; 270 loops. The Python 2 programs (output_asciidoc.py, process-validate.py) and add_spoke.py, which uses functions that no longer exist, are not decided"),
 "C27": (EX, "exploration", "every kind of definition (type, uncertainty, enumeration, ranges) with about 50 values alone and in loops; every choice of up to three (thorough: four) of ten related names as items and loops in several orders with every choice of mandatory categories; every family of links over five items written in six ways, in either order of definitions, with every small column; every table of up to three rows for category keys. Only the first of several parents of a child is checked by the library, and missing keys, missing mandatory items and the type of a child without its own are not enforced by it: these are out of the property"),
 "C28": (EX, "exploration", "every sequence of up to five (thorough: six) tokens that goes wrong at its last token or ends too early, for grammars 1.1, 2.0 and STAR2 (thorough: 1.0 too) and both scanners, in several layouts and with text after it; texts of up to 16 items and loops of up to 200 values on long lines. Faults that are not in the syntax (repeated names, loops with part of a row or without names) carry no place; the stack of rules that is printed when another rule could use the token, and the pointer of the compiled scanner (documented as useless), are not compared"),
 "C29": (EX, "exploration", "every rule body of up to four (thorough: five) symbols over eleven for a single rule and eight with one of six sets of other rules; texts of up to four (thorough: five) tokens over three; one plain and one decorated form of each grammar, the two kinds of scanner alternating. Grammars that are not LL(1) are only checked for the warning. Known finding: a part that can be empty and has a rule in it, at the beginning of an alternative to the empty one"),
}
