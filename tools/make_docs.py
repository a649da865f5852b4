"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json

KVN = "ccsds_ndm/ndm_kvn_io.py"
XML = "ccsds_ndm/ndm_xml_io.py"
NIO = "ccsds_ndm/ndm_io.py"
MOD = "ccsds_ndm/models/ndmxml2"
TESTS = "The existing tests compare a few dozen sample files; "

P = []


def p(pid, title, statement, over, qtext, why, files, mech, space, note, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  space=space, note=note, observe=list(observe)))


M_READ = [("line classification and splitting into key, value and unit", KVN + ":_pre_process_kvn_data"),
          ("block limits from keyword lists", KVN + ":__identify_sub_segments"), ("block limits", KVN + ":_get_min_max_indices"),
          ("object construction", KVN + ":__build_object_tree")]
M_WRITE = [("recursive text output", KVN + ":_collate_str_out_subclasses"), ("key = value [unit] lines", KVN + ":_fill_str_out_kvn"),
           ("section marks", KVN + ":_collate_special_header_str_out"), ("data lines", KVN + ":_collate_special_data_str_out")]
M_XR = [("parser set-up and type selection", XML + ":NdmXmlIo.from_string"), ("schema of the messages", MOD)]
M_XW = [("serializer set-up", XML + ":NdmXmlIo.to_string"), ("schema of the messages", MOD)]

p("P01", "Keyword messages in KVN are read completely and exactly",
  "Reading a KVN text of a keyword-structured message (OPM, OMM, APM, RDM, CDM) whose blocks are in the standard order gives an object tree of that message type in which "
  "every keyword of the text is at its own place with its own value and unit. Nothing is lost, duplicated, moved to another block or invented, whichever optional keywords, "
  "blocks, comments and repeated blocks (e.g. several manoeuvres, two conjunction objects) are present or absent.",
  ["inputs", "programs"], "every combination of present and absent optional keywords, blocks, comments and repetitions of five message types",
  TESTS + "block limits are found from the set of keywords present, so each combination of optional blocks is a different path and the samples hold a handful of them.",
  [KVN, NIO], M_READ, "explicit-state search over abstract documents: texts from an independent encoder, object trees compared field by field",
  "Exhaustive within 1-2 edits (3 in thorough) of the minimal, full and repeated-block documents; larger simultaneous deviations are outside the bound.")
p("P02", "Data-line messages in KVN are read completely and exactly",
  "Reading a KVN text of a message with segments and data lines (OEM, AEM, TDM) gives an object tree with every segment, metadata keyword, data line, covariance matrix, observation and "
  "comment at its own place, with the columns of each line assigned to the right quantities. Data of one segment never reach another one, whatever optional keywords, data types and numbers of "
  "segments, lines and matrices there are.",
  ["inputs", "programs"], "every combination of optional keywords, attitude types, quaternion orders, rotation sequences, observation types and section lengths, for one or more segments",
  TESTS + "where a segment ends depends on what follows it, so each neighbouring of different segments is a different case.",
  [KVN, NIO], M_READ + [("attitude columns", KVN + ":__xmlify_att_segment_data"), ("data line recognition", KVN + ":_identify_special_sub_segments")],
  "explicit-state search over abstract documents, including three-segment documents of unequal segments",
  "Exhaustive within 1-2 edits (2 everywhere in thorough); data-line epochs are calendar or day-of-year times.")
p("P03", "The KVN writer writes exactly the object tree, in standard order",
  "Writing an object tree of any single message type as KVN gives the version line followed by exactly the keywords, values, units, comments, section marks and data lines of that tree, each once and in the "
  "order of the standard. Absent optional items leave no trace and present ones are never dropped.",
  ["inputs"], "every object tree of the eight message types",
  TESTS + "the writer has special cases per data type that only some trees reach.",
  [KVN, NIO], M_WRITE, "explicit-state search over object trees; output tokenised by an independent parser and compared line by line with a reference encoder",
  "Exhaustive within 2 edits of the minimal, 1 edit of full and multi-segment trees; numbers are compared by value.")
p("P04", "What is written as KVN is read back as the same message",
  "For every object tree of a single message, writing it as KVN and reading the text back gives an equal object tree, and writing that one again gives the same content. Comments may only move between a block and its first sub-block, "
  "where KVN itself cannot tell them apart.",
  ["inputs"], "every object tree of the eight message types", TESTS + "round trips of sample files do not reach combinations of optional content.",
  [KVN, NIO], M_READ + M_WRITE, "explicit-state search over object trees, each written, read and written again by the real code",
  "Same bounds as P03; units of data lines do not exist in KVN and are left out.")
p("P05", "XML messages are read completely and exactly",
  "Reading a schema-conforming XML message of any of the eight types gives an object tree of that type that holds every element, attribute and text of the document at its own place, in document order, and nothing else. "
  "Absent optional elements are absent in the tree.",
  ["inputs"], "every schema-conforming document of the eight types", TESTS + "they do not vary the optional content.",
  [XML, NIO, MOD], M_XR, "explicit-state search over abstract documents encoded by an independent XML writer; object trees compared field by field",
  "Exhaustive within 2 edits of the minimal, 1 edit of full and multi-segment documents (conjunction messages 1 edit in quick).")
p("P06", "The XML writer writes exactly the object tree, readable again",
  "Writing an object tree of a single message as XML gives a well-formed document whose elements, order, attributes (message id and version included) and texts are those of the tree. "
  "Reading it back gives an equal object tree, and writing that one gives the same document.",
  ["inputs"], "every object tree of the eight types", TESTS + "they do not vary the optional content.",
  [XML, NIO, MOD], M_XW, "explicit-state search over object trees; output parsed by an independent XML parser and compared with the reference infoset",
  "Same bounds as P05.")
p("P07", "Conversion between KVN and XML keeps the message",
  "Converting a single message from KVN to XML and back, or from XML to KVN and back, loses and changes nothing that both formats can carry. Every intermediate object tree and text has the same content as the original.",
  ["inputs", "histories"], "every message, every chain KVN-XML-KVN and XML-KVN-XML", TESTS + "no test chains the formats for combinations of optional content.",
  [KVN, XML, NIO], M_READ + M_XW, "explicit-state search over documents; both conversion chains executed on the real code and checked at every step",
  "1 edit of minimal, full and multi-segment documents (2 in thorough), values of the value alphabet.")
p("P08", "Numbers keep their exact decimal value",
  "A number of a message, in any decimal or exponent notation and of any number of digits, has exactly the same decimal value in the object tree, and a number in the object tree is written with exactly its value, in both formats. "
  "Nothing is rounded, and no binary floating point value appears.",
  ["inputs"], "every numeric item of every message type x every number", TESTS + "sample values survive rounding to 15 digits.",
  [KVN, XML, MOD], [("decimal typed fields", MOD), ("value output", KVN + ":_fill_str_out_kvn"), ("data lines", KVN + ":_collate_special_data_str_out")],
  "exhaustive enumeration of (numeric slot, number form) over 28 decimal and 8 integer forms, four operations each",
  "Number forms are an alphabet chosen for signs, exponents, leading and trailing zeros and up to 40 digits.")
p("P09", "Units stay with their quantity, and only there",
  "A unit given for a quantity is kept with exactly this quantity in reading and writing in both formats, and a quantity without a unit stays without one (in KVN, data lines never carry units). Each unit that the message definition allows for the quantity is supported.",
  ["inputs"], "every dimensioned quantity x every allowed unit or none", TESTS + "each sample has all units or none.",
  [KVN, XML, MOD], [("unit recognition", KVN + ":_has_units"), ("unit output", KVN + ":_fill_str_out_kvn"), ("unit vocabularies", MOD)],
  "explicit-state search over unit edits of the documents, four operations each", "All single units and (thorough) all pairs; uniform patterns of absence.")
p("P10", "Every value of the controlled vocabularies is supported in both formats",
  "Every value that the message definitions list for an enumerated keyword, every attitude representation with each quaternion component order and rotation sequence, and every observation type is read and written in both formats "
  "as exactly that value.", ["inputs"], "every enumerated keyword x every listed value, alone and in pairs", TESTS + "they contain a small part of the vocabularies.",
  [KVN, XML, MOD], [("vocabularies", MOD), ("attitude types", KVN + ":__att_types"), ("attitude segment preparation", KVN + ":__prepare_aemsegment_sub_objects")],
  "explicit-state search over vocabulary edits of the documents, four operations each", "All single values everywhere, all pairs in minimal documents.")
p("P11", "A combined XML message is read as all of its messages",
  "Reading a combined NDM gives all messages it contains with their exact contents and message types, in their order per type, together with the message id and comments of the combined message. "
  "If and only if it contains exactly one message, the result is this message itself.",
  ["inputs", "configurations"], "every sequence of messages of any types, with and without message id and comments", TESTS + "three combined samples exist.",
  [XML, NIO], [("conversion to the message classes", XML + ":NdmXmlIo.from_string"), ("single message", XML + ":_strip_multi_ndm"), ("type selection", XML + ":_identify_data_type")],
  "exhaustive enumeration of all message sequences up to length 4 (5) over eight types, compared with the reference", "Order of messages of different types is not represented in the object tree and not claimed.")
p("P12", "Combined messages are written completely, or refused where impossible",
  "A combined NDM object tree is written as XML with all its messages, message id and comments, and read back as the same. Written as KVN it is refused with a not-implemented error if and only if it does not hold exactly one message; a single one is written as the KVN of that message. Writing never changes the tree.",
  ["inputs", "configurations"], "every multiset of messages of any types, built by hand or read", TESTS + "one combined sample is written.",
  [XML, KVN, NIO], [("refusal", KVN + ":NdmKvnIo.to_string"), ("number of messages", XML + ":_is_multi_ndm")],
  "exhaustive enumeration of all message sequences up to length 3 (4) over eight types", "As P11.")
p("P13", "Format and message type are identified from the content, or refused",
  "The format (KVN or XML) and message type of an input text are identified from its version line or root element alone, whatever white space surrounds the text and whatever its contents mention. A text in square brackets is refused as not implemented JSON, and any other "
  "text that is neither format, or whose version line or root is not of a known message type, is refused with an exception and never gives an object.",
  ["inputs"], "every text", TESTS + "identification is tested on valid samples only.",
  [NIO, XML, KVN], [("format", NIO + ":_identify_data_format"), ("XML type", XML + ":_identify_data_type"), ("KVN type", KVN + ":_identify_data_type")],
  "exhaustive enumeration of identification-relevant texts (surroundings, mentions, wrong names, token strings)", "Bounds as listed in the evidence; byte order marks are not claimed.")
p("P14", "All ways to read and to write are equivalent",
  "Reading the same content from a text, from UTF-8 bytes or from a file (given as string or path object, absolute or relative, any file name) gives the same object tree, through the common interface and through the interface of the format. "
  "Writing to a file makes the file hold exactly the UTF-8 text that writing to a string gives, whether the file existed before or not, and creates no other file.",
  ["inputs", "configurations", "histories"], "every entry point x path form x prior state of the file x message", TESTS + "each entry point is used with one kind of path and a fresh file.",
  [NIO, XML, KVN], [("common interface", NIO + ":NdmIo"), ("XML files", XML + ":NdmXmlIo.to_file"), ("KVN files", KVN + ":NdmKvnIo.to_file")],
  "exhaustive enumeration of entry point x path form x file name x prior content for every message type", "Local file system.")
p("P15", "Every read and write is independent of what happened before",
  "The result of a read or write depends on its arguments only. It is the same after any sequence of other reads and writes of any type and format, including failed ones, with the same or other reader and writer objects.",
  ["histories", "fault_sequences"], "every sequence of operations in one process", TESTS + "every test uses new objects for one operation.",
  [KVN, XML, NIO], [("reader state", KVN + ":_init_object_map"), ("keyword lists", KVN + ":_extract_object_submap"), ("parser and serializer kept in the object", XML + ":NdmXmlIo")],
  "exhaustive exploration of all operation sequences of length 2 over 83 operations and length 3 over 14 (22), each in a forked process, every step checked against the reference",
  "Longer histories are outside the bound.")
p("P16", "Writing has no side effects, and object trees are independent",
  "Writing does not change the object tree, and the output always reflects the current state of the tree, also when the same tree was written before and changed since. Object trees from different reads share no mutable part: changing one never changes another one, nor later reads and writes. Reading and writing leave the process itself (working directory, environment, decimal context, locale, warning filters, open files) as it was.",
  ["histories", "inputs"], "every tree, every change between two writes, every pair of reads", TESTS + "no test changes a tree between operations.",
  [KVN, XML, NIO, MOD], [("output from the current tree", KVN + ":_collate_str_out"), ("default lists of the model classes", MOD)],
  "exhaustive enumeration of single in-place edits between two writes, and of read pairs with complete in-place change of one tree", "Bounded as listed in the evidence.")
p("P17", "A write that fails leaves the target file alone",
  "When an object tree cannot be written (a value that cannot be converted, an interruption while the text is produced, a text that the format cannot hold, a state vector without the first of its accelerations or a covariance matrix without one of its elements as KVN, a combined message as KVN, JSON, an object that is no message), the exception reaches the caller and the target file is as before: not created, or unchanged with its previous content. No other file is left, and a "
  "following correct write gives the complete file.",
  ["fault_sequences", "crash_points", "inputs"], "every value at which the conversion can fail x state of the target", TESTS + "none of them injects a failure into a write.",
  [NIO, XML, KVN], [("text first, then file", XML + ":NdmXmlIo.to_file"), ("text first, then file", KVN + ":NdmKvnIo.to_file")],
  "exhaustive fault injection: one unwritable value at each value slot of the documents, both formats, target existing and absent", "Faults of the disk itself are outside the bound.")
p("P18", "Damaged XML is refused",
  "An XML input that is not well-formed, e.g. truncated at any place or damaged in any character, is refused with an exception and never gives an object tree of a part of the data. So is a document with an element that the message definition does not have at that place, or with a repeated single element.",
  ["inputs", "fault_sequences"], "every truncation and every damaged character of a document; every foreign or repeated element", TESTS + "no damaged input is tested.",
  [XML], [("well-formedness", XML + ":_check_well_formed"), ("unknown elements", XML + ":__init_parser")],
  "exhaustive enumeration of truncations, single-character damages (judged by expat) and foreign elements", "Damage that leaves the document well-formed is judged only for elements.")
p("P19", "Comments are kept verbatim, complete and in order",
  "Every comment line of a message is kept with its exact text and in order, in reading and in writing in both formats, whatever the text looks like (keywords, section marks, numbers, equal signs in the middle, brackets). Comments of one block do not get into another one or disturb the other data.",
  ["inputs"], "every placement and number of comment lines x every single-line text", TESTS + "comments of the samples are plain words in a few blocks.",
  [KVN, XML], [("comment lines", KVN + ":__process_comment_lines"), ("comment recognition", KVN + ":_pre_process_kvn_data"), ("comments of data sections", KVN + ":__identify_sub_segments")],
  "exhaustive enumeration of comment counts per block and pairs of blocks, and of 33 texts at each place; four operations each",
  "Single-line comments; leading and trailing white space and a leading equal sign are not claimed; a block and its first sub-block share comments in KVN.")
p("P20", "KVN layout does not matter",
  "Reading a KVN message does not depend on white space around equal signs, units, columns and lines, on blank lines, on the line ends (LF, CR, or a pair of them), or on a missing final line end.",
  ["inputs"], "every message x every layout", TESTS + "the samples have one layout each.",
  [KVN, NIO], [("line splitting", KVN + ":_pre_process_kvn_data")], "exhaustive product of layout deviations, up to 2-3 (5) at a time, for every base document; blank lines at each place", "Nine layout dimensions.")
p("P21", "Concurrent reads and writes do not influence each other",
  "Reads and writes running at the same time in several threads, each with its own reader or writer object, give the same results as alone, in any interleaving.",
  ["schedules"], "every interleaving of two operations", "The tests are single-threaded; schedules cannot be sampled by repeating them.",
  [KVN, XML, NIO], [("no state shared between objects", KVN + ":NdmKvnIo"), ("no state shared between objects", XML + ":NdmXmlIo")],
  "stateless model checking: controlled scheduler over the real threads, preemption bound 1 at source lines and 2 on a grid, each schedule in a forked process",
  "Two threads; switches at source lines of the library; XML libraries atomic.")
p("P22", "Repeated items keep their number and order",
  "Segments, data lines, covariance matrices, manoeuvres, observations, user-defined parameters and all other repeatable items are all kept, in order, in reading and writing in both formats, for any number of them and any mixture of different variants next to each other.",
  ["inputs"], "every multiplicity of every repeatable item, every sequence of segment variants", TESTS + "most samples have one segment and no repeated block.",
  [KVN, XML], [("lists", KVN + ":__identify_list"), ("segment limits", KVN + ":_get_segment_end")],
  "exhaustive enumeration of multiplicities (singly and in pairs) and of segment sequences over 10-14 variants, four operations each", "Multiplicities up to 12, segment sequences up to 2 (3).")
p("P23", "User-defined parameters are kept as they are",
  "User-defined parameters keep their names, values, order and number in both formats, whatever names (in upper case, without white space) and values they have, including names and values that look like other keywords, units or comments, and repeated names.",
  ["inputs"], "every sequence of (name, value)", TESTS + "they use one or two plain parameters.",
  [KVN, XML], [("prefix handling", KVN + ":_xmlify_list"), ("block limits by prefix", KVN + ":_get_min_max_indices"), ("output", KVN + ":_collate_str_out_subclasses")],
  "exhaustive enumeration of 16 names x 19 values and of parameter sequences up to length 3, four operations each", "Upper-case names, since KVN keywords are upper case.")
p("P24", "Texts and times are kept verbatim",
  "Texts and times of a message are kept character by character in reading and writing in both formats: no conversion, trimming inside, case change, numeric or time normalisation, and no confusion with units, keywords or markup characters.",
  ["inputs"], "every text item x every single-line text without surrounding white space; every time item x every calendar or day-of-year time", TESTS + "their texts are plain words.",
  [KVN, XML, MOD], [("value splitting", KVN + ":_pre_process_kvn_data"), ("units or text", KVN + ":_has_units"), ("text output", KVN + ":_fill_str_out_kvn")],
  "exhaustive enumeration of (text slot, text) over 44 texts and 13 times, four operations each", "Texts are an alphabet of separators, brackets, keywords, numbers, markup and non-ASCII characters.")
p("P25", "Schema locations in the output are those of the call",
  "The schema location attributes of an XML output are exactly those given in this call, none if none are given, whatever earlier calls of the same writer asked for, in text and file output and through both interfaces. They change nothing else of the document.",
  ["histories", "configurations"], "every sequence of calls with and without schema locations", TESTS + "each writer is used for one call.",
  [XML, NIO], [("serializer set-up per call", XML + ":NdmXmlIo.to_string")], "exhaustive enumeration of call sequences up to length 2-3 (4) over five argument combinations", "As listed.")
p("P26", "XML layout does not matter",
  "Reading an XML message depends on its information only, not on its layout: declaration and named encoding of an already decoded text, indentation, line ends, quotes, order of attributes, character references, CDATA sections, comments and processing instructions, and schema location attributes.",
  ["inputs"], "every message x every equivalent notation", TESTS + "the samples have one layout each.",
  [XML], [("declaration", XML + ":_ENCODING_DECLARATION"), ("parser", XML + ":NdmXmlIo.from_string")], "exhaustive product of layout deviations, up to 2 (3) at a time, for every base document", "Ten layout dimensions.")
p("P27", "Results do not depend on the environment",
  "Reading and writing, texts and files, give the same results in every locale, UTF-8 mode, hash seed, time zone, optimisation level and decimal context of the process; files are always UTF-8.",
  ["configurations"], "every combination of the settings", "The tests run in one environment.",
  [NIO, XML, KVN], [("file encoding", NIO + ":NdmIo.from_path"), ("file encoding", XML + ":NdmXmlIo.to_file"), ("file encoding", KVN + ":NdmKvnIo.to_file")],
  "exhaustive enumeration of environment combinations, each in a process of its own, all message types", "Locales that are installed: C, POSIX, C.utf8.")
p("P28", "Reading any KVN text ends, the same way every time",
  "Reading any text that starts with a KVN version line ends with an object of the named message type or with an exception, never without an answer, and the same text gives the same outcome every time.",
  ["inputs", "fault_sequences"], "every sequence of lines after a version line; every damaged message", TESTS + "no damaged KVN is tested; the block search contains loops that depend on the data.",
  [KVN], [("block search", KVN + ":__identify_sub_segments"), ("list search", KVN + ":__identify_list")],
  "exhaustive enumeration of line sequences over per-type alphabets and of single line faults", "Whether a damaged KVN text is refused or read in part is not claimed.")
p("P29", "Object trees are plain values",
  "Two object trees are equal exactly if they hold the same data: a tree read from a message equals every other one read from it and the one built by hand with the same data, and differs from each tree with any other value, unit, "
  "item or comment. Copies (copy, deepcopy, pickle) are equal to the original and are written the same, and deep ones share no part with it; so with combined messages.",
  ["inputs"], "every object tree and every change of it", TESTS + "none compares unequal trees or copies one.",
  [MOD, XML, KVN], [("model classes", MOD), ("class of the messages in combined ones", XML + ":NdmXmlIo.from_string")],
  "explicit-state search over object trees; equality of each with its copies and inequality with each of its single edits, on the real classes",
  "Single edits; numbers are equal by value (1.0 and 1.00).")


def main():
    with open("properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                            "observe_at": x["observe"] or ["results of the public reading and writing calls"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [], "not_applicable": [],
         "notes": "No hooks: the checks use the public interface and the interpreter's own trace facility. Every run imports /repo's current tree."}
    for x in P:
        m["checks"].append({
            "property": x["id"], "quick_cmd": "./check %s quick" % x["id"], "thorough_cmd": "./check %s thorough" % x["id"],
            "technique": "model checking: " + x["space"], "level": "model_checking", "level_note": x["note"]})
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
