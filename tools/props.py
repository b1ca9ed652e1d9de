# One entry per property: source of properties.jsonl and MANIFEST.json (tools/gen_meta.py).
PROPS = []
def P(id, title, statement, quant, why, files, mech, note, technique, over=("inputs",), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note, technique=technique, over=list(over), observe=list(observe)))

P("C01", "Quoting and unquoting are exact inverses for any text",
  "For every string s without NUL bytes, quoted(s) starts and ends with a double quote, has no raw control characters and no unescaped quote inside, and try_unquoted(quoted(s)) == s; try_quoted adds quotes exactly when s holds a character with code 32 or lower, a double quote or a backslash, and try_unquoted undoes it, while it returns text that is not enclosed in quotes unchanged. decode_char(encode_char(c) followed by anything) gives c and consumes exactly the encoding. Decoding any character buffer consumes at least one and at most the available characters and never reads outside the buffer; a backslash with one to three octal digits that name a control character gives that character, and any other malformed escape a '?'.",
  "all strings of non-zero bytes, all 255 characters with any continuation, all character buffers", "The string test quotes a few ASCII literals; it never reaches control characters followed by digits, bytes >= 128, truncated escapes or buffer ends.",
  ["flut/string_tools.cpp", "flut/string_tools.hpp"], [("quoted, try_quoted, needs_quotes, try_unquoted", "flut/string_tools.cpp"), ("encode_char, decode_char", "flut/string_tools.cpp")],
  "Round trip and an independent scan of the quoted text, exact-size heap buffers for decoding.", "property-based testing: round trip, escape-syntax oracle, memory-safety fuzzing")
P("C02", "String splitting, trimming, slicing and affix tests match a character model",
  "For all strings without NUL bytes: split_str returns exactly the non-empty maximal runs without separator characters, in order; left_of_str / right_of_str return what precedes the first / follows the last separator (the whole string if there is none); make_key_value_str splits at the first separator and trims both parts (without separator: the string itself and an empty value); trim_str and trim_right_str remove exactly the given characters at the ends. left_str(s,n) and right_str(s,n) keep the first / last n characters, clamped to the string, and for negative n drop -n characters from the other end; mid_str returns the clamped slice and throws for a start beyond the end; str_begins_with, str_ends_with and in_str agree with a direct comparison at every position.",
  "all strings, separator sets, trim sets, counts of either sign, positions and substrings", "The existing tests split and trim a handful of literals; counts beyond the end, repeated affixes, all-separator strings and empty results are not covered.",
  ["flut/string_tools.hpp", "flut/string_tools.cpp"], [("split_str, left_of_str, right_of_str, make_key_value_str, trim_str, trim_right_str", "flut/string_tools.cpp"), ("left_str, mid_str, right_str, in_str, str_begins_with, str_ends_with", "flut/string_tools.hpp")],
  "Every result is compared with a character-by-character model.", "property-based testing against a character-level reference model")
P("C03", "Glob patterns, pattern lists and child selection match exactly the right strings",
  "pattern_match(s, p) is true exactly when the whole of s matches p, where '*' matches any sequence (including '/' and a leading '.'), '?' one character, '[...]' / '[!...]' one character in / not in a set with ranges, and every other character, backslash included, itself. A pattern_matcher made from a delimited list (or from a prop_node's value) accepts a string exactly if one of its non-empty patterns matches, and find_match returns the first accepted element or end. prop_node::select(key) and select_pattern(pattern) visit exactly the matching children, in order.",
  "all patterns of these pieces and all subject strings, all pattern lists and delimiters, all child lists", "The existing tests check few pattern/subject pairs; matching is a relation over all pairs of strings.",
  ["flut/string_tools.cpp", "flut/pattern_matcher.hpp", "flut/prop_node.hpp", "flut/container_tools.hpp"], [("pattern_match", "flut/string_tools.cpp"), ("pattern_matcher", "flut/pattern_matcher.hpp"), ("select, select_pattern, make_view_if", "flut/prop_node.hpp, flut/container_tools.hpp")],
  "Independent dynamic-programming matcher; subjects are derived from the pattern so that both outcomes are frequent.", "property-based testing against a reference glob matcher")
P("C04", "Values of every supported type survive being written as text and read back",
  "to_str followed by from_str, and setting a value in a prop_node followed by get, give back integers of every width, bools, enums, strings, paths and (nested) vectors exactly, vec3 / quat / transform component by component, and floating-point values to within 5e-7 plus rounding; numeric text in fixed or exponent notation reads as the nearest value. get(key, default) and get_any return the value of the first child with that key, or of the first key that exists, and the default when there is none; without a default a missing key throws. Text that holds no number throws when converted to a floating-point or long integer type, and string_is reports it; the INIT_PROP and SET_PROP macros read and write the property named like the variable without member prefix and outer underscores.",
  "all values of the supported types, all texts, all key lists", "The existing tests convert a few literals; limits of integer types, empty and nested vectors, odd bytes and missing keys are not sampled.",
  ["flut/string_tools.hpp", "flut/system/string_cast.hpp", "flut/prop_node.hpp", "flut/prop_node.cpp", "flut/math/math.hpp"], [("to_str, from_str, str_to_vec, string_is", "flut/string_tools.hpp, flut/system/string_cast.hpp"), ("prop_node_cast, get, set, get_any", "flut/prop_node.hpp")],
  "Round trip of generated values through text and through prop nodes.", "property-based testing: round trip over generated values of every type")
P("C05", "Formatted strings and log messages equal what the C formatter produces",
  "For every printf format and matching arguments, stringf returns exactly the text that snprintf produces, whatever its length. log::messagef, tracef, debugf, infof, warningf, errorf and criticalf send exactly that same text to every sink that accepts the level.",
  "all formats of %d %i %x %X %s %f %g %e %E %lld conversions with flags, width and precision, all arguments, results of up to thousands of characters", "The tests never format a result longer than a small buffer.",
  ["flut/string_tools.cpp", "flut/system/log.cpp", "flut/system/log.hpp"], [("stringf", "flut/string_tools.cpp"), ("messagef and the level functions", "flut/system/log.hpp, flut/system/log.cpp")],
  "Differential against snprintf with a large buffer; results up to 6000 characters.", "property-based testing: differential against snprintf")
P("C06", "Reading a character stream returns exactly the items, lines and characters in it",
  "A char_stream over any text (owned, borrowed or a file, with the default or custom delimiters) extracts with operator>> every number and word in order, each equal to what the text says (a whole number ends where its digits end), is good() exactly while items remain, and ends in eof() without fail(). get_line returns each line that holds anything besides white space, from its first non-blank character to the line end (\\n or \\r\\n); getc and peekc deliver the characters in order. Extracting a number where there is none sets fail() and good() becomes false. A copied, moved or assigned stream goes on reading where the original was, also after the original is gone.",
  "all texts, sequences of typed items, delimiter sets and line structures", "No existing test reads through char_stream beyond single conversions; stream state depends on the whole history of reads.",
  ["flut/char_stream.hpp", "flut/char_stream.cpp", "flut/string_tools.hpp"], [("operator>>, get_line, getc, peekc, good, fail, eof", "flut/char_stream.hpp, flut/char_stream.cpp"), ("load_char_stream", "flut/char_stream.cpp"), ("str_to_vec", "flut/string_tools.hpp")],
  "Texts are rendered from a list of items, which is the oracle; strtod and strtof decide floating-point values.", "property-based testing: render-and-read-back model", ("inputs", "histories"))
P("C07", "Tokenizing text yields exactly the words, operators and quoted strings in it",
  "For every sequence of bare words, single-character operators and quoted strings (with escapes) separated by delimiters, repeated get_token returns exactly those tokens in order, with quotes removed and escapes decoded, and then the stream is at its end; inside quotes, operators and delimiters are ordinary text. For arbitrary text every get_token call advances, so reading always ends, and never reads outside the buffer.",
  "all token sequences, operator, quote and delimiter sets; all texts", "No existing test tokenizes.",
  ["flut/char_stream.cpp", "flut/char_stream.hpp", "flut/string_tools.cpp"], [("get_token", "flut/char_stream.cpp"), ("encode_char, decode_char", "flut/string_tools.cpp")],
  "Token lists are rendered and read back; arbitrary bytes in exact-size buffers for termination and memory safety.", "property-based testing: render-and-read-back, plus robustness fuzzing")
P("C08", "A property tree is an ordered list of labelled children under any history",
  "After any sequence of push_back, set, set_delimited, operator[], get_or_add_child, insert, erase, clear, copy, move and assignment, a prop_node holds exactly the value and the ordered children (duplicates included) of the obvious model; set replaces the first child with that key, else appends; look-ups by key find the first match, throw or return null when there is none, and an index beyond the end throws. Copies are deep and independent, a node may be assigned from its own descendants and ancestors, and two trees are equal exactly when values, labels and order agree at every level.",
  "all operation histories on a tree, all pairs of trees", "The existing tests never run a sequence of tree operations.",
  ["flut/prop_node.hpp", "flut/prop_node.cpp"], [("push_back, set, set_delimited, operator[], get_or_add_child, insert, erase, clear", "flut/prop_node.hpp"), ("get_child, try_get_child, get_delimited, has_key, operator==", "flut/prop_node.hpp, flut/prop_node.cpp")],
  "Stateful model-based testing of up to 60 operations on trees of up to 100 nodes, keys from a small pool.", "stateful model-based property testing", ("histories",))
P("C09", "Access tracking reports exactly the properties that were not read",
  "After any sequence of reads of a prop_node tree by key, index, delimited path or typed access, exactly the nodes on the way to a read node and that node itself count as accessed: count_unaccessed is the number of all others and is_accessed says so per node (try_get_child, get_or_add_child and the writable operator[] read the child they return, get_child only its parent). clear_accessed_recursively makes every node unread, a copy of a tree starts unread and does not share state with the original, and log_unaccessed reports each unread item once, in order, with its value, and none that was read.",
  "all trees and read histories", "The existing tests never look at access flags.",
  ["flut/prop_node.hpp", "flut/prop_node.cpp", "flut/prop_node_tools.cpp"], [("access_flag, count_unaccessed, clear_accessed_recursively", "flut/prop_node.hpp, flut/prop_node.cpp"), ("log_unaccessed", "flut/prop_node_tools.cpp")],
  "A mirror tree of flags is the oracle for generated read histories; and for the log_unaccessed report.", "stateful model-based property testing", ("histories",))
P("C10", "Saving a property tree as prop text and loading it gives back the same tree",
  "For every prop_node tree with an empty root value, labels that start with a letter and no NUL bytes, save_prop (readable or compact) followed by load_prop, load_file, parse_prop or construction from the text gives an equal tree, whatever quotes, escapes, braces, comment signs, delimiters, line breaks or white space its labels and values contain, also for empty values and nodes with both a value and children. Saving replaces an existing file completely, does not change the tree, and saving the loaded tree again writes the same text; a compact file has a single line. save_prop returns false when the file cannot be opened or written.",
  "all trees with such labels and arbitrary values, both layouts", "No existing test saves a prop file.",
  ["flut/prop_node_tools.cpp", "flut/prop_node_tools.hpp", "flut/char_stream.cpp", "flut/string_tools.cpp", "flut/prop_node.cpp"], [("save_prop, load_prop, parse_prop", "flut/prop_node_tools.cpp"), ("get_token", "flut/char_stream.cpp"), ("try_quoted", "flut/string_tools.cpp")],
  "Round trip of generated trees through files.", "property-based testing: round trip")
P("C11", "The prop parser accepts every layout of a tree and reports invalid labels",
  "parse_prop gives the same tree for every way of writing it: items separated by line breaks, tabs or semicolons, '=' and braces with or without surrounding white space, comments from '%' to the end of the line anywhere between tokens, and labels and values bare, in single or in double quotes. An entry whose label does not start with a letter makes parse_prop and load_prop report an error: with an error_code they set it with a message and return an empty node, without one they throw. For arbitrary text the parser ends, stays inside the buffer, and throws exactly when it would report an error.",
  "all layouts of all trees, all placements of invalid labels, all texts", "No existing test parses prop text.",
  ["flut/prop_node_tools.cpp", "flut/char_stream.cpp"], [("parse_prop, get_prop_token", "flut/prop_node_tools.cpp"), ("get_token", "flut/char_stream.cpp")],
  "Random layouts of a generated tree, mutated and arbitrary text.", "property-based testing: generated layouts against the tree they were rendered from, plus robustness fuzzing")
P("C12", "Saving a property tree as XML and loading it gives back the same tree",
  "For every tree with one root, XML names as labels and a value on childless nodes that is not only white space, save_xml followed by load_xml (or load_file) gives an equal tree and leaves the saved tree as it was, including markup characters, quotes, line breaks and bytes above 127 in values. Hand-written XML loads the same way: attributes become leading children, entities and character references are decoded, and declarations, comments and white space between elements are ignored. A truncated document is reported as an error (exception, or error_code and an empty node).",
  "all such trees, all ways to write them as XML, all truncation points", "No existing test reads or writes XML.",
  ["flut/prop_node_tools.cpp", "contrib/rapidxml-1.13/rapidxml.hpp"], [("save_xml, load_xml, read_xml_node", "flut/prop_node_tools.cpp")],
  "Round trip, hand-rendered XML and truncation at every kind of place.", "property-based testing: round trip and rendered documents")
P("C13", "Saving settings as INI and loading them gives back the same groups and values",
  "For every tree of at most two levels (items that have a value, and groups that hold at least one item) with distinct labels and trimmed single-line values, save_ini followed by load_ini gives the same items followed by the same groups, in their order, also when items follow groups in the tree. Hand-written INI loads likewise: blank lines, '#' comment lines, white space around keys, values and group names and \\r\\n line ends are ignored, only the first '=' separates, and a repeated key takes its last value. A line that is not empty, comment, group or assignment, and a missing file, throw.",
  "all such trees, all ways to write them as INI", "No existing test reads or writes INI files.",
  ["flut/prop_node_tools.cpp", "flut/char_stream.cpp", "flut/string_tools.cpp"], [("save_ini, load_ini", "flut/prop_node_tools.cpp"), ("get_line, make_key_value_str", "flut/char_stream.cpp, flut/string_tools.cpp")],
  "Round trip and hand-rendered INI with noise.", "property-based testing: round trip and rendered documents")
P("C14", "Merging trees and including files combine properties exactly as documented",
  "merge_prop_nodes adds each child of the second tree whose key the first does not yet have, in order, and replaces the first child with an equal key only when overwriting; the second tree is unchanged, or read as it was before when it is a part of the first, and merging twice adds nothing. load_file_with_include replaces every include directive, at any depth and recursively, by the root of the named file (relative to the including file, .prop or .xml), or with merge_children by that root's children that are not already there, and nothing counts as read afterwards. A cycle of includes, a missing file, or an included file with more than one root throws.",
  "all pairs of trees; all acyclic families of files in nested folders, all cycle lengths", "No existing test merges or includes.",
  ["flut/prop_node_tools.cpp", "flut/prop_node.cpp"], [("merge_prop_nodes", "flut/prop_node_tools.cpp"), ("load_file_with_include", "flut/prop_node_tools.cpp")],
  "Reference expansion over an in-memory family of files.", "property-based testing against a reference include expander", ("inputs", "configurations"))
P("C15", "Paths split, join and replace their parts consistently",
  "For every path made of folders and a file name (separators '/' or '\\'), parent_path and filename are what precedes and follows the last separator, stem and extension what precedes and follows the last dot of the file name (never a dot in a folder), and the get_filename_* helpers agree. Joining inserts exactly one separator unless the left side is empty or already ends in one; replace_extension, remove_filename and replace_filename change only the part they name (an empty extension removes it); make_preferred only turns '\\' into '/'. Comparison, concatenation, copying and output work on the exact text.",
  "all folder lists, separators, file names and replacement parts of any bytes", "The existing tests have no path test.",
  ["flut/system/path.cpp", "flut/system/path.hpp", "flut/string_tools.cpp"], [("path members and operators", "flut/system/path.cpp"), ("get_filename_ext, get_filename_without_ext, get_filename_folder, get_filename_without_folder", "flut/string_tools.cpp")],
  "Paths are assembled from known parts, which are the oracle. Paths directly below the root are not claimed.", "property-based testing against the known parts of assembled paths")
P("C16", "File system helpers change exactly what they say and report success truthfully",
  "For every history of operations: copy_file returns true exactly when it made the target an exact copy of an existing source file, never touches an existing target when not overwriting or when the source is missing or a folder, reports a write that fails, and leaves the source alone, also when a file is copied onto itself under any name; create_directories makes all missing folders on the way and returns true exactly when the last one was newly made; create_unique_folder makes and returns the first free name of the sequence name, name (1), name (2), ... and throws after the given number of attempts; remove deletes exactly the named file and returns whether it was there. exists, file_exists, folder_exists and load_string report what is there (a folder is not a file; a missing file throws or sets the error_code), and current_path returns the folder that was set.",
  "all histories of these operations over nested folders, names and binary contents", "The existing tests never touch the file system.",
  ["flut/filesystem.cpp", "flut/filesystem.hpp"], [("copy_file, create_directories, create_unique_folder, load_string, exists, current_path", "flut/filesystem.cpp")],
  "Stateful model of a scratch folder, rescanned after every history; /dev/full stands for a full disk. The result of copying a file onto itself is not judged, only its contents.", "stateful model-based property testing", ("histories", "inputs"))
P("C17", "Data storage keeps every value at its frame and channel through any growth",
  "After any sequence of adding channels (with a value or data), adding frames, growing, relabelling and writing by index or label, a storage holds for every frame and channel exactly the value last written or the fill value given when it came into being; labels map to their channel, find_or_add and writing by label add a channel only when it is missing. at() outside the current size, shrinking, frames of the wrong width and duplicate labels throw and leave the storage as it was; interpolation between two frames is linear and throws outside; text output lists labels and all frames.",
  "all histories of operations, all frame positions", "The existing tests have no storage test.",
  ["flut/storage.hpp", "flut/buffer/data_header.hpp"], [("add_channel, add_frame, resize, operator[], get_interpolated_value", "flut/storage.hpp"), ("labels", "flut/buffer/data_header.hpp")],
  "Stateful model (vector of frames) for double and int storages.", "stateful model-based property testing", ("histories",))
P("C18", "Labelled tables keep every cell in place and labels unique",
  "After any interleaving of adding rows and columns with default values, growing, and writing by index or by label, a table holds in every cell the value last written, or the default given when the cell came into being, and prints exactly that; access by label adds missing rows and columns when writable and throws when read-only; an operation that throws leaves the table as it was. A label header maps each label to its current position, frees a label that is replaced, never shrinks on resize, and throws on duplicate labels and positions beyond the end.",
  "all histories of operations", "The existing tests have no table or header test.",
  ["flut/table.hpp", "flut/buffer/data_header.hpp"], [("add_row, add_column, resize, operator()", "flut/table.hpp"), ("add, set, find, resize", "flut/buffer/data_header.hpp")],
  "Stateful model (vector of rows, label lists).", "stateful model-based property testing", ("histories",))
P("C19", "Ring buffers behave as a double-ended queue and as a window on the last frames",
  "After any sequence of pushes and pops at both ends, reserve (larger or smaller), clear, writes and copies, a circular_deque holds the same elements in the same order as std::deque by index, iteration, front and back, does not grow while there is room, and front, back and pop throw when it is empty. A circular_frame_buffer of n frames gives back, by absolute index, by distance from the newest, or interpolated, every value written in the last n frames; at() throws outside that window; resizing or adding a channel resets the contents to the given value and keeps the labels, and adding a label that is taken throws and changes nothing.",
  "all histories of operations, all capacities and wrap positions", "The existing tests exercise one short deque sequence; the frame buffer has no test.",
  ["flut/circular_deque.hpp", "flut/buffer/circular_frame_buffer.hpp"], [("push_back, push_front, pop, reserve, iterators", "flut/circular_deque.hpp"), ("operator(), at, reverse, resize_buffer", "flut/buffer/circular_frame_buffer.hpp")],
  "Stateful model against std::deque and a slot model.", "stateful model-based property testing", ("histories",))
P("C20", "Containers, ranges and container algorithms agree with simple models",
  "After any history of operations, flat_map keeps its keys unique in order of first insertion with the value last written (at and const access throw on a missing key, operator[] adds a default), sorted_vector stays sorted with every duplicate and finds exactly what it holds, and dynarray copies deeply, empties what it is moved from and throws outside its size. For every sequence sort_indices is a permutation in ascending order, and sorted_copy, median, average, top_average (of the smallest n), min/max_element, find, find_if, find_index, back_index and make_view_if return what a direct evaluation gives and leave the input alone; empty input to median and back_index throws. Streaming a vector separates its elements by tabs and ends the line. irange visits exactly begin, begin+step, ... up to but excluding the end, whether or not the end is a whole number of steps away.",
  "all histories and sequences, ties and empty sequences included; ranges whose end lies on the step grid", "The container test sorts and inserts one literal list; histories with duplicates, erasure, moves and empty input are not sampled.",
  ["flut/flat_map.hpp", "flut/sorted_vector.hpp", "flut/dynarray.hpp", "flut/container_tools.hpp", "flut/math/irange.hpp"], [("flat_map, sorted_vector, dynarray", "flut/flat_map.hpp, flut/sorted_vector.hpp, flut/dynarray.hpp"), ("sort_indices, median, top_average, make_view_if, find_index", "flut/container_tools.hpp"), ("irange", "flut/math/irange.hpp")],
  "Stateful models (vector of pairs, sorted vector, vector) and direct evaluation.", "stateful model-based property testing and reference evaluation", ("histories", "inputs"))
P("C21", "Every log message reaches exactly the sinks whose level accepts it",
  "After any history of creating, destroying, adding, removing and re-levelling sinks and setting the global level, a message logged at a level by any log function is delivered once, in order of registration and with its exact text, to every registered sink whose level is at or below it and to no other; a destroyed or removed sink receives nothing and adding a sink twice changes nothing. A stream sink writes each message it accepts and a line end; a file sink replaces the file, has every message in it when the call returns, and reports good() exactly when the file could be opened. test_log_level is true for every level that some sink accepts, get_global_log_level is the lowest level among the registered sinks, and adding a null sink throws.",
  "all histories of sink and level changes, all levels and texts (NUL bytes only through the unformatted functions)", "The existing tests log but never check what a sink receives.",
  ["flut/system/log.cpp", "flut/system/log.hpp", "flut/system/log_sink.hpp", "flut/system/log_sink.hpp"], [("add_sink, remove_sink, log_string, set_global_log_level", "flut/system/log.cpp"), ("stream_sink, file_sink", "flut/system/log_sink.hpp")],
  "Recording sinks against a model of registrations and levels.", "stateful model-based property testing", ("histories",))
P("C22", "Flag sets, optionals, dictionaries, memoization, hashes and clones are exact",
  "A flag_set over a 32 or 64 bit store holds exactly the flags set and not cleared since, for any history and any flag up to the top bit; an optional is empty until assigned, then holds the exact value, independently of its copies, and reading one from text gives the value or leaves it alone when there is none. A dictionary maps each key and each name to its first pair and throws, or gives the default, for absent ones; a memoized function returns what the function returns and calls it once per distinct argument list, except that a call that throws is not remembered. hash equals 64-bit FNV-1a for text below 128 and agrees between run time, compile time and both string types; clone makes independent equal copies.",
  "all histories, values, pairs, call sequences and texts", "No existing test uses these helpers.",
  ["flut/flag_set.hpp", "flut/math/optional.hpp", "flut/dictionary.hpp", "flut/memoize.hpp", "flut/hash.hpp", "flut/memory_tools.hpp"], [("flag_set", "flut/flag_set.hpp"), ("optional", "flut/math/optional.hpp"), ("dictionary, lookup", "flut/dictionary.hpp"), ("memoize", "flut/memoize.hpp"), ("hash, hash_constexpr", "flut/hash.hpp"), ("clone", "flut/memory_tools.hpp")],
  "Set, map and call-count models; an independent FNV-1a.", "stateful model-based property testing and reference evaluation", ("histories", "inputs"))
P("C23", "A factory creates exactly the class last registered under a name",
  "After any history of registrations, create, operator() and operator[] of a factory make a new object of the class last registered under that name (by default its type name without scope) with the given constructor arguments; for a name never registered create, operator() and operator[] throw, try_create returns null, has_type is false, and nothing becomes registered by asking. Copies are independent and objects are released by their owner. clean_type_name gives the type's name without scope, and tidy_identifier strips scope, member prefix and underscores at the ends.",
  "all registration and creation histories, names and arguments; all identifiers", "No existing test uses a factory.",
  ["flut/factory.hpp", "flut/system_tools.hpp", "flut/system_tools.cpp", "flut/string_tools.cpp"], [("register_class, create, try_create, has_type", "flut/factory.hpp"), ("clean_type_name, tidy_identifier", "flut/system_tools.hpp, flut/string_tools.cpp")],
  "Map model of registrations; live-object count.", "stateful model-based property testing", ("histories", "inputs"))
P("C24", "Clamping, wrapping, bounds and elementary functions obey their definitions",
  "clamped, is_between and bounds (is_within, clamp, get_violation, range, negation) agree with direct comparison for int, float and double. soft_clamped stays within the limits, is the identity outside the soft boundary, increasing, never steeper than the identity and symmetric; wrapped returns a value in the period that differs by a whole number of periods. Signs, squares, roots, angle conversion, equals, square_wave, parity, power-of-two and delta follow their definitions, and bounds read from 'a', 'a..b' or min/max (else lower/upper) children (or written and read back) have exactly those limits, with the type's limits for a missing side and an exception for both missing.",
  "all values and ordered limits up to 1e6, soft boundaries up to half the range, texts of bounds", "No existing test covers these functions.",
  ["flut/math/math.hpp", "flut/math/bounds.hpp", "flut/math/delta.hpp"], [("clamped, soft_clamped, wrapped, equals, square_wave", "flut/math/math.hpp"), ("bounds", "flut/math/bounds.hpp"), ("delta", "flut/math/delta.hpp")],
  "Direct evaluation and shape laws (range, monotonicity, Lipschitz, symmetry).", "property-based testing: reference evaluation and metamorphic relations")
P("C25", "Angles mean the same in degrees and radians through every operation",
  "For all angles in float and double, conversion between degrees and radians (construction, assignment, radian(), degree(), rad_value, deg_value) preserves the angle; sums, differences, negation, scaling, compound assignment and comparison act on the value in its unit. sin, cos and tan of an angle equal those of its radian value, whichever unit it is in. Text output and input round trip.",
  "all angles up to 10000 degrees and scale factors up to 100", "No existing test covers angles.",
  ["flut/math/angle.hpp"], [("radian_, degree_, sin, cos, tan", "flut/math/angle.hpp")],
  "Direct double evaluation.", "property-based testing: differential against direct evaluation")
P("C26", "Vector and box arithmetic equals componentwise evaluation",
  "For all vec3 and vec4 values in float and double, sums, differences, scaling, products, length, distance, dot and cross products, normalisation (length 1, same direction, null stays null), comparison, indexing, iteration, conversion, unit vectors and text input/output equal componentwise evaluation, and compound assignment equals the binary operation. A bounding box grown by points and boxes in any order has exactly their componentwise minimum and maximum. vec3_from_polar gives the point at that radius, inclination from y and azimuth, and mat33_from_axes has the axes as columns.",
  "all vectors up to 1e4 per component, scalars, point sets of up to 30", "No existing test covers vectors.",
  ["flut/math/vec3.hpp", "flut/math/vec4.hpp", "flut/math/bounding_box.hpp", "flut/math/mat33.hpp"], [("vec3_, vec4_", "flut/math/vec3.hpp, flut/math/vec4.hpp"), ("bounding_box_", "flut/math/bounding_box.hpp")],
  "Componentwise double evaluation.", "property-based testing: differential against componentwise evaluation")
P("C27", "Quaternions represent rotations: application, composition and conversions agree",
  "For all unit quaternions q rotates a vector about its axis by its angle (Rodrigues' formula) and keeps its length, q*p applies p and then q, -q is the inverse, and normalising only scales. quat_from_axis_angle (which throws for an axis that is not normalised), quat_from_quats, quat_from_axes, quat_from_euler in all six orders, axis_angle_from_quat and rotation_vector_from_quat agree with that rotation, and pitch, yaw, roll and euler_from_quat give the angle of the rotated axes about x, y and z. quat_from_directions turns the first direction into the second by the shortest rotation, also for equal, opposite and nearly opposite directions.",
  "all axes, angles up to +-360 degrees, pairs of directions, Euler angles and orders", "No existing test covers quaternions.",
  ["flut/math/quat.hpp"], [("operator*, normalize, quat_from_*, axis_angle_from_quat, rotation_vector_from_quat, euler_from_quat", "flut/math/quat.hpp")],
  "Rodrigues' formula in double; tolerances scaled to the type.", "property-based testing: differential against Rodrigues' formula, round trips")
P("C28", "Rigid transforms compose, invert and preserve distances",
  "For all transforms a, b with unit orientations and all points v: a*v is the rotated then translated point, distances are preserved, (a*b)*v == a*(b*v), inverse() and unary minus undo a on both sides, and inv_transform undoes transform for points, orientations and transforms. The identity changes nothing, and a transform built from only a position or orientation has the identity for the other part.",
  "all positions up to 100 and unit orientations, in float and double", "No existing test covers transforms.",
  ["flut/math/transform.hpp", "flut/math/quat.hpp"], [("transform_", "flut/math/transform.hpp")],
  "Group laws and direct evaluation within tolerances.", "property-based testing: algebraic laws")
P("C29", "Interpolation and splines pass through their samples and blend between them",
  "interpolated_value of samples at ordered keys, or of a vector at a fractional index, is the sample at its own key, the linear blend of the two neighbours in between, and the first or last sample outside; no samples throws. A regular_piecewise_linear_function equals the function at its grid points, is linear in between and continues the outer intervals. A catmull_rom passes through its inner points at their times with the cubic Catmull-Rom blend in between and its outer segments continued, the alpha variant equals the Barry-Goldman construction, compute_spline_length is the sum of the chords, and wrong numbers of points throw.",
  "all sample sequences (ties included), functions, interval counts, point lists and positions, for float, double and vec3", "No existing test interpolates.",
  ["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp", "flut/math/catmull_rom.hpp"], [("interpolated_value", "flut/buffer/interpolation.hpp"), ("regular_piecewise_linear_function", "flut/math/regular_piecewise_linear_function.hpp"), ("catmull_rom, catmull_rom_segment_alpha, compute_spline_length", "flut/math/catmull_rom.hpp")],
  "Direct double evaluation (linear scan, Hermite form, Barry-Goldman).", "property-based testing against reference evaluation")
P("C30", "Averages, covariance, regression and polynomials equal their definitions",
  "After any sequence of add and reset a weighted average is the weighted mean of what was added since, or zero and empty without any. compute_channel_means and compute_covariance of a storage are the per-channel mean and the symmetric population covariance; linear_regression over points or over equally spaced values is the least-squares line, exact for points on a line, and unequal sizes throw. A polynomial evaluates to the sum of coefficient times power, its coefficients are accessible by index, and intersect_y inverts a linear function.",
  "all sample sets up to 60 values, storages up to 6 by 40, polynomials of degree 1 to 5", "No existing test covers statistics.",
  ["flut/math/average.hpp", "flut/buffer/data_algorithms.hpp", "flut/math/linear_regression.hpp", "flut/math/polynomial.hpp"], [("average_", "flut/math/average.hpp"), ("compute_channel_means, compute_covariance", "flut/buffer/data_algorithms.hpp"), ("linear_regression", "flut/math/linear_regression.hpp"), ("polynomial, intersect_y", "flut/math/polynomial.hpp")],
  "Long double reference evaluation.", "property-based testing against reference evaluation")
P("C31", "Filters have the Butterworth response and delay lines delay by their delay",
  "For every cutoff ratio the low-pass filter is linear and time-invariant (superposition, silence in gives silence out, output is the convolution with its impulse response), has gain 1/sqrt(1+(tan(pi f)/tan(pi fc))^4) at every frequency f, settles on a constant input, and reports its last output and last change. A delayer or smooth_delayer with several samples per window starts at its initial value, keeps a constant constant, reproduces a ramp shifted by the delay to within one sample, and passes a step on after the delay, give or take the width of its windows: a smooth_delayer keeps the time-average of its input (held during each step) over consecutive windows of delay/(N-0.5), a delayer the sample nearest to each window end with windows of delay/(N-1), and both give these values N-1 windows later, linearly interpolated.",
  "cutoff ratios 0.01 to 0.45, all frequencies and sample streams; delays 0.05 to 2, 2 to 16 windows, 3 or more samples per window", "No existing test covers filters or delays.",
  ["flut/filter.hpp", "flut/math/delayer.hpp"], [("iir_filter, make_lowpass_butterworth_2nd_order", "flut/filter.hpp"), ("delayer, smooth_delayer", "flut/math/delayer.hpp")],
  "Analytic transfer function from the measured impulse response; ramp, step and constant signals; a model of the windows in double, with steps of varying length.", "property-based testing: metamorphic relations and analytic response")
P("C32", "Timers, stopwatches and the profiler report exactly the time that passed",
  "A timer gives the time since creation or its last reset in every unit, whole units truncated. A stopwatch report lists each tag once, in order of first use, with the sum of the times between its measures and the preceding ones, followed by 'internal', and does not change the number format. After any history of properly nested sections the profiler report is the tree of distinct section names (compared by text) per parent under TOTAL, with the summed time, share of the total and exclusive share of each, longest first; reporting changes nothing, reset starts over, and use from another thread throws.",
  "all histories of sections, tags and clock advances", "The timer test measures one interval; nesting, repetition and sums are not checked.",
  ["flut/system/profiler.cpp", "flut/system/profiler.hpp", "flut/stopwatch.cpp", "flut/timer.hpp"], [("start_section, end_section, report", "flut/system/profiler.cpp"), ("add_measure, get_report", "flut/stopwatch.cpp"), ("timer", "flut/timer.hpp")],
  "Model of the section tree under a virtual clock that replaces the standard clocks.", "stateful model-based property testing under a virtual clock", ("histories", "schedules"))
P("C33", "Versions, random numbers, debug and sampled output and interrupts are exact",
  "A version prints as major.minor.patch, .build if positive and the postfix, and reads back equal; a random generator repeats its sequence for the same seed, uni stays in its range and scales with it, norm is mean plus stdev times the standard one, both with the right moments, and the global functions use the global generator. write_debug puts each value under its label in the current row, starting a new row when that label already has a value there, and the file holds all labels and rows when the program ends; output_function writes exactly the requested samples, evenly spaced from first to last. An interruptible is interrupted exactly after interrupt() was called on it, get_date_time_str formats the current local time, sleep takes at least the given time, and crash logs its message and ends the process.",
  "all versions, seeds, ranges, write histories and sampled intervals", "No existing test covers these.",
  ["flut/system/version.hpp", "flut/math/random.hpp", "flut/system/debug_storage.cpp", "flut/debug_tools.hpp", "flut/interruptible.cpp", "flut/system_tools.cpp"], [("version", "flut/system/version.hpp"), ("random_number_generator", "flut/math/random.hpp"), ("write_debug", "flut/system/debug_storage.cpp"), ("output_function", "flut/debug_tools.hpp")],
  "Round trip, seed replay and moments, debug histories run to completion in a child process.", "property-based testing: round trip, metamorphic relations, stateful model", ("inputs", "histories"))
P("C34", "Loaders report every failure the same way: error_code or exception, never both",
  "For a missing file or a folder and for any contents, load_prop, load_xml and parse_prop with an error_code never throw and either set it with a message and return an empty node, or leave it alone; without one they throw with that same message exactly in those cases and give the same tree otherwise. load_file does the same by extension, load_ini and every loader end for any contents, and load_string and load_char_stream report exactly a missing file or folder. error_code, try_set_error, flut_error, flut_error_if, flut_assert and flut_validate signal exactly when they should, with their message.",
  "all file contents, document damage and messages", "No existing test loads a damaged document.",
  ["flut/prop_node_tools.cpp", "flut/filesystem.cpp", "flut/system/error_code.hpp", "flut/system/assert.hpp"], [("load_prop, load_xml, load_file, load_ini, parse_prop", "flut/prop_node_tools.cpp"), ("load_string", "flut/filesystem.cpp"), ("error_code, try_set_error", "flut/system/error_code.hpp"), ("flut_error, flut_assert", "flut/system/assert.hpp")],
  "Both calling conventions compared on the same generated document.", "property-based testing: differential between error reporting modes, robustness fuzzing")
P("C35", "Printed trees, sequences and logged variables show exactly the data",
  "Printing a prop_node writes one line per node, in order and at every depth: the label after two spaces per level, padded to the width of the widest indented label of the whole tree, followed by ' = ' and the value if the node has a value or no children; printing twice, or after other output on the same stream, gives the same text, and the tree is unchanged. Printing a vector writes its elements separated by tabs and a line end. The flut_logvar macros log each expression's text, '=' and its value, separated by tabs, at trace level; flut_trace_call logs the call before and after making it exactly once; flut_do_periodic runs its statement at the first and then every interval-th pass; setfixed fixes the decimals of the rest of that one message, and every log call sends the concatenation of its arguments as a stream prints them.",
  "all trees with non-empty labels, all vectors of printable values, all logged values", "No existing test prints anything.",
  ["flut/prop_node.cpp", "flut/prop_node.hpp", "flut/container_tools.hpp", "flut/system/log.hpp"], [("to_stream, get_align_width, operator<<", "flut/prop_node.cpp, flut/prop_node.hpp"), ("operator<<( vector )", "flut/container_tools.hpp"), ("flut_logvar, flut_trace_call, flut_do_periodic, setfixed, message, log_stream", "flut/system/log.hpp")],
  "The expected text is built by the law from the generated tree, vector or variables.", "property-based testing: printed text against a reference rendering")
