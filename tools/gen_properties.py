#!/usr/bin/env python3
"""Write /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
V = "punx/validate.py"; VV = "punx/validations/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Item names are judged by the whole name against the NeXus name rules",
 "Validating a file gives every NeXus group and field below the root exactly one item-name verdict: OK when the whole name matches the strict rule [a-z_][a-z0-9_]*, otherwise NOTE when the whole name matches a validItemName pattern of the selected NXDL file set, otherwise ERROR (inside an NXcollection it is WARN instead). "
 "The name of an attribute of a NeXus object gets one item-name verdict too, OK when the whole name matches either rule and ERROR otherwise, except that NX_class is judged as a class name and attributes seen through a link to another item are judged only at the link's target. "
 "The verdict depends on the name alone, never on a prefix of it, on a trailing line end, or on names judged before.",
 ["inputs", "histories"], "all HDF5 item and attribute names (all Unicode strings), all bundled NXDL file sets and all pattern lists, all sequences of names judged before",
 "Tests try about a hundred hand-picked names against one file set each; a pattern that is anchored or cached wrongly differs only on names nobody listed.",
 [VV+"item_name.py", V, "punx/schema_manager.py"],
 [("name rule lookup", VV+"item_name.py:validItemName_match_key"), ("group/field verdict", VV+"item_name.py:handle_groups_and_fields"), ("attribute verdict", VV+"item_name.py:handle_any_attribute"), ("dispatch", VV+"item_name.py:verify"), ("recording", V+":Data_File_Validator.record_finding")],
 [("regexp_cache", "compiled patterns by label, per validation run", V+":Data_File_Validator.__init_local__")], ["findings with test name validItemName"])

prop("C02", "The class of every group is judged by what its NXDL definition is for",
 "Every NeXus group of a validated file is reported as known exactly when its NX_class is defined in the selected NXDL file set, and known classes are accepted (OK) exactly when the definition may be used as a base class: base classes always, application definitions never, contributed definitions unless they have the field definition in their (NXentry) group entry. "
 "The value of the NX_class attribute itself gets the same judgement, ERROR for anything unknown, and its spelling is OK exactly when the whole value matches a validNXClassName pattern of the file set. "
 "No class name makes the validation fail instead of reporting.",
 ["inputs", "configurations"], "all NX_class values, all NXDL file sets (any mix of categories and contents of definitions), all groups",
 "Tests use a few class names of the base class and application categories; contributed definitions and malformed values are hardly sampled.",
 [VV+"nx_class_attribute.py", VV+"attribute.py", VV+"item_name.py", V],
 [("group verdict", VV+"nx_class_attribute.py:validate_NX_class_attribute"), ("use of contributed definitions", V+":Data_File_Validator.usedAsBaseClass"), ("attribute verdict", VV+"attribute.py:nxclass_handler"), ("attribute category", VV+"attribute.py:isBaseClassNXDL"), ("spelling", VV+"item_name.py:handle_NX_class")],
 None, ["findings 'known NXDL', 'NeXus base class', 'attribute value', 'validItemName' of @NX_class"])

prop("C03", "Attributes that point at other items are OK only if the target exists",
 "For every group attribute that names another item (signal, axes, and default of the root, of an NXentry or NXsubentry) and for every absolute link target attribute, validation reports OK for the existence of the named item exactly when that item is present in the file, and ERROR when it is not. "
 "Every name in a list of axes gets its own existence verdict, a target that is not an absolute address of valid names is an ERROR, and a signal attribute of a field is a plottable data marker (OK) only when its value is the number 1. "
 "Values of unexpected type or size give ERROR findings, not failures.",
 ["inputs"], "all attribute values (strings, lists, numbers, empty), all sets of items present in the group and the file, all link target paths",
 "Tests check one present and a few absent targets; the verdict must follow presence for every name, every list length and every path depth.",
 [VV+"attribute.py", VV+"hdf5_group_items_in_base_class.py"],
 [("signal", VV+"attribute.py:signal_handler"), ("axes", VV+"attribute.py:axes_handler"), ("target", VV+"attribute.py:target_handler"), ("default and signal of known attributes", VV+"hdf5_group_items_in_base_class.py:child_exists")],
 None, ["findings 'attribute value', 'axes[..] exists', 'value of @signal', 'value of @default'"])

prop("C04", "Comparison of a group with its base class leaves no item out",
 "For every group whose class is known, validation reports each field and each group that the base class defines exactly once: OK when an item of that name is in the group, OPTIONAL when it is not. "
 "Each item in the group is reported exactly once as a field or group in the base class, and each attribute of the group exactly once as known or unknown. "
 "An attribute for which the base class lists allowed values is OK exactly when its value is one of them.",
 ["inputs", "configurations"], "all base classes (any number of fields, groups and attributes), all groups (any number and kind of items), all attribute values",
 "Tests count total findings of a few sample files; an item skipped in one situation and reported twice in another keeps such counts.",
 [VV+"base_class_items_in_hdf5_group.py", VV+"hdf5_group_items_in_base_class.py", V],
 [("class against group", VV+"base_class_items_in_hdf5_group.py:verify"), ("group attributes against class", VV+"hdf5_group_items_in_base_class.py:verify_group_attributes"), ("group items against class", VV+"hdf5_group_items_in_base_class.py:verify_group_children"), ("group dispatch", V+":Data_File_Validator.validate_group")],
 None, ["findings 'NXDL field in data file', 'NXDL group in data file', 'field in base class', 'group in base class', 'known attribute', 'attribute value enumeration'"])

prop("C05", "Application definition audit reports every field the definition requires",
 "When an entry names an application definition, validation reports whether the definition is known to the selected file set and, if so, whether it is one (an application or contributed definition; anything else is an ERROR), then reports each field of the definition's entry group exactly once: OK when the entry has it, ERROR when it is missing. "
 "A field with listed values is also OK exactly when its value is one of the listed values, and ERROR otherwise. "
 "Findings are recorded against the address of the field in question, and missing fields, empty or odd values never abort the validation.",
 ["inputs", "configurations"], "all definition names, all application definitions (any fields and value lists), all sets of fields in the entry, all values",
 "Tests validate a few files against a few definitions, none with a missing field that has listed values.",
 [VV+"application_definition.py", V],
 [("audit", VV+"application_definition.py:verify"), ("which entries are audited", V+":Data_File_Validator.validate")],
 None, ["findings 'known NXDL', 'NeXus application definition', 'NXDL field', 'NXDL field enumerations'"])

prop("C06", "Every item of the file is catalogued once, with its NeXus class path",
 "Before judging anything, validation lists every group and field that can be reached in the file, and every attribute of the NeXus groups and fields among them, each exactly once under its HDF5 address. "
 "Its class path is the parent's class path extended by the group's NX_class or by the field's name, with @ and the name for attributes; a group without an NX_class that is one text starting with NX, and everything below it, is marked as non-NeXus content. "
 "Links that cannot be followed or lead back to an enclosing group neither abort the listing nor hide their neighbours.",
 ["inputs"], "all HDF5 files: every tree of groups, fields, attributes and hard, soft and external links",
 "Tests look at a few sample files with ordinary trees; sharing, cycles and broken links are never present.",
 [V, "punx/utils.py"],
 [("walk", V+":Data_File_Validator._group_address_catalog_"), ("class path", V+":ValidationItem.determine_NeXus_classpath"), ("addresses", V+":ValidationItem.__init__")],
 [("addresses", "catalog by HDF5 address", V+":Data_File_Validator"), ("classpaths", "catalog by NeXus class path", V+":Data_File_Validator")], ["addresses and classpaths of the validator"])

prop("C07", "Exactly one default-plot verdict per file, following the NeXus rules",
 "Every validation records exactly one default-plot verdict, at the file root. "
 "It is OK exactly when a default plot can be found: some /NXentry/NXdata has a signal attribute and every such attribute names an existing item, of which at least one is a field, or, failing that, some group has exactly one field marked signal=1. "
 "Without a default plot the verdict is ERROR if the file has no NXentry group or the selected file set requires the data group of an NXentry, and NOTE otherwise, whatever was validated before.",
 ["inputs", "histories", "configurations"], "all arrangements of entries, data groups, signal and default attributes and their values; all file sets; all validations made before with the same validator",
 "Tests cover about ten arrangements; several entries, several data groups and misleading pointers combine without limit.",
 [VV+"default_plot.py", V],
 [("verdict", VV+"default_plot.py:verify"), ("attribute style", VV+"default_plot.py:default_plot_v3"), ("field style", VV+"default_plot.py:default_plot_v2")],
 None, ["finding 'NeXus default plot' at /"])

prop("C08", "Scores and statistics count every finding exactly once",
 "The summary of a validation has one count for each requested status, equal to the number of recorded findings of that status, and the counts over all statuses add up to the number of findings. "
 "The score is the sum of the status values of the findings with non-zero value, the number of those findings, and their quotient (zero when there are none). "
 "Every recorded finding has one of the defined statuses, keeps the address, test and comment it was recorded with, and is stored with the item it was recorded for.",
 ["inputs", "histories"], "all lists of findings, all subsets of statuses",
 "Tests sum findings of a few files, always for all statuses.",
 [V, "punx/finding.py"],
 [("score", V+":Data_File_Validator.finding_score"), ("summary", V+":Data_File_Validator.finding_summary"), ("recording", V+":Data_File_Validator.record_finding"), ("status check", "punx/finding.py:Finding.__init__")],
 None, ["finding_score()", "finding_summary()", "validations"])

prop("C09", "The printed report shows exactly the findings of the selected statuses",
 "The validation report lists every finding whose status was selected, and no other, each exactly once with its address, status, test and comment, ordered by address with an item's attributes next to it. "
 "The statistics printed below count all findings whatever was selected. "
 "Printing does not change the findings.",
 ["inputs"], "all lists of findings, all selections of statuses",
 "Tests compare the number of report lines for a few files and selections.",
 [V, "punx/finding.py"],
 [("report", V+":Data_File_Validator.print_report")], None, ["standard output of punx validate"])

prop("C10", "A validation result depends on the file and the file set only",
 "Validating a file gives the same findings whether the validator was just made or has validated other files before, and whatever other validators and NXDL file sets were used in the process. "
 "Judging a file leaves the definitions of the file set as they were read. "
 "A validation that fails to open its file leaves the validator usable.",
 ["histories"], "all sequences of validations, validators and file sets in one process, including failed ones",
 "Tests nearly always use a fresh validator for one file.",
 [V, "punx/nxdl_manager.py", "punx/cache_manager.py", "punx/schema_manager.py"],
 [("reset", V+":Data_File_Validator.__init_local__"), ("run", V+":Data_File_Validator.validate"), ("shared state", "punx/singletons.py")],
 [("validations, addresses, classpaths, regexp_cache", "results of one run", V+":Data_File_Validator.__init_local__")], ["findings"])

prop("C11", "The tree view shows every item and attribute of the file",
 "The tree of an HDF5 file shows every group, field and link below each group exactly once, indented below its parent, and (unless switched off) every attribute of each shown group and field with its value. "
 "Soft links, missing external files and items linked with a target attribute are shown as such, not followed. "
 "No readable HDF5 file makes the tree view fail.",
 ["inputs"], "all HDF5 files: trees, kinds of links, types, shapes and values",
 "Tests compare the text for about a dozen small files.",
 ["punx/h5tree.py", "punx/utils.py"],
 [("groups and links", "punx/h5tree.py:Hdf5TreeView._renderGroup"), ("attributes", "punx/h5tree.py:Hdf5TreeView._renderAttributes"), ("fields", "punx/h5tree.py:Hdf5TreeView._renderDataset")], None, ["punx tree FILE"])

prop("C12", "Array previews show the first items and the last, never more than allowed",
 "For any array and any limit of at least 3 items, the tree view shows every item along a dimension when there are no more than the limit, and otherwise exactly the first limit-minus-two items, an ellipsis and the last item. "
 "No item is repeated or out of range for any shape, including dimensions of length zero, and a dimension of size n is cut for no n up to the limit.",
 ["inputs"], "all array lengths, ranks up to three, all limits",
 "Tests show a handful of shapes with limits 5 and 6.",
 ["punx/h5tree.py"],
 [("how many", "punx/h5tree.py:Hdf5TreeView._decideNumShown"), ("which", "punx/h5tree.py:Hdf5TreeView._renderNdArray")], None, ["array text in punx tree"])

prop("C13", "Text read from a file is decoded the same everywhere",
 "Text stored in HDF5 as bytes is decoded as UTF-8 wherever it is compared or shown, whatever the output encoding of the process; text already decoded and values that are not text pass through unchanged. "
 "Arrays of text become lists of the same length and order with every element decoded, and an empty array gives no value. "
 "Bytes that are not valid UTF-8 do not abort a validation or a tree view.",
 ["inputs", "configurations"], "all values h5py can return for attributes and fields; all output encodings",
 "Tests run with one output encoding and nearly only ASCII text.",
 ["punx/utils.py"], [("decoding", "punx/utils.py:decode_byte_string")], None, ["findings and tree text"])

prop("C14", "Reading an NXDL definition keeps every item, under a distinct name",
 "Every field, group, link, attribute and symbol declared in an NXDL file is present in the parsed definition at its place in the structure, none replaces another: items of the same name get distinct names by appending the smallest number not in use. "
 "Each keeps the listed values, the dimensions (rank and size by index) and the link target declared for it. "
 "Whether an item is required by default depends only on the category of the definition it was declared in, not on other definitions read before or after.",
 ["inputs", "configurations", "histories"], "all valid NXDL files, all name collisions, all orders in which definitions are read",
 "Tests count the items of the bundled definitions; only a few have colliding names, and sharing between definitions is not visible in counts.",
 ["punx/nxdl_manager.py", "punx/nxdl_schema.py"],
 [("collisions", "punx/nxdl_manager.py:NXDL__base.ensure_unique_name"), ("structure", "punx/nxdl_manager.py:NXDL__base.parse_fields, parse_groups, parse_links, parse_attributes, parse_symbols"), ("defaults", "punx/nxdl_manager.py:NXDL__base.parse_xml_attributes")], None, ["NXDL_Manager(..).classes"])

prop("C15", "An NXDL file set is listed completely and in order",
 "The list of NXDL files of a file set has every *.nxdl.xml file of its base_classes, applications and contributed_definitions directories exactly once, and nothing else, the categories in that order and sorted by name within each. "
 "A missing file set or category is an error, not an empty result. "
 "The classes known to the validator are exactly the files listed, each read from its own file with the category of its own directory (of two files with one name in different categories, the later category counts).",
 ["inputs", "configurations"], "all directory contents",
 "Tests count the files of the bundled sets.",
 ["punx/nxdl_manager.py"], [("list", "punx/nxdl_manager.py:get_NXDL_file_list"), ("title and category", "punx/nxdl_manager.py:NXDL__definition.set_file"), ("load", "punx/nxdl_manager.py:NXDL_Manager.__init__")], None, ["get_NXDL_file_list()", "NXDL_Manager(..).classes"])

prop("C16", "The file set used is the one asked for, else the most recent one",
 "All file sets in the source and user caches that have an information file are known by directory name, with a user file set taking the place of a source file set of the same name. "
 "Selecting a known name gives that file set; selecting nothing or an unknown name gives one with the latest date of modification (no date counts as earliest). "
 "The reference, date, commit, location and cache reported for a file set are those of its own information file.",
 ["configurations", "histories"], "all contents of both caches, all names, all dates, all orders of selections",
 "Tests use the three bundled sets only.",
 ["punx/cache_manager.py"], [("selection", "punx/cache_manager.py:CacheManager.select_NXDL_file_set"), ("inventory", "punx/cache_manager.py:CacheManager.all_file_sets, Base_Cache.all_file_sets"), ("information file", "punx/cache_manager.py:NXDL_File_Set.read_info_file")], None, ["punx configuration", "header of the report"])

prop("C17", "Installing a file set never harms the ones installed before",
 "Installing does nothing when a file set of that name exists and no update was requested, and when the download fails or has no NXDL content every file set installed before is left as it was. "
 "Only NXDL content of the archive (.xml, .xsl and .xsd files of the top directory and the three category directories) is written, and nothing is written or removed outside the directory of the file set being installed and the unpacking directory, whatever the name and the archive say. "
 "After a success the file set holds exactly the content of the archive plus an information file with its name, commit and the latest date of its content.",
 ["inputs", "fault_sequences", "configurations"], "all file set names, all archive listings, all states of the cache, failures at each step",
 "Tests that install need the network; none looks at failures or at names that are paths.",
 ["punx/cache_manager.py", "punx/main.py"], [("install", "punx/cache_manager.py:download_file_set"), ("content filter", "punx/cache_manager.py:is_extractable")], None, ["directory of the user cache"])

prop("C18", "A subcommand may be abbreviated exactly when the meaning is unique",
 "A full subcommand name is taken as it is; an abbreviation of at least two characters that starts exactly one subcommand name runs that subcommand. "
 "A word that starts no subcommand, starts more than one, or has fewer than two characters is refused with an error exit and runs nothing. "
 "The other arguments reach the subcommand unchanged.",
 ["inputs"], "all words given as subcommand, all argument lists",
 "Tests try a few abbreviations.",
 ["punx/main.py"], [("abbreviation", "punx/main.py:MyArgumentParser.parse_args")], None, ["punx COMMAND"])

prop("C19", "Bad requests end in a message and an error exit, good ones select exactly",
 "The report option accepts any comma-separated list of status names in any case and selects exactly those; any other word is refused with a message naming it. "
 "A file that is missing or not readable as HDF5 or NXDL, a file set that is not available, or an invalid NXDL file ends every command that needs it with a message and an error exit status, never a traceback, and no report. "
 "A valid NXDL file is reported as valid.",
 ["inputs"], "all report options, file names and file set names; all kinds of unreadable files",
 "Tests try a few bad values; validating an NXDL file is not tested at all.",
 ["punx/main.py", V, "punx/nxdltree.py", "punx/h5tree.py"], [("validate", "punx/main.py:func_validate"), ("tree", "punx/main.py:func_tree")], None, ["punx validate", "punx tree"])

prop("C20", "Name patterns and types are those of the file set's own schema",
 "For each schema file the patterns, base and length limit of every valid... type are those written in it, followed by those of its direct base type when it restricts another one of them. "
 "What is read for one schema is not changed by reading another or the same one again, in any order. "
 "Every named type of the types schema is available, with the values it lists, and the units are the values of its list of any units.",
 ["configurations", "histories"], "all schema files, all orders of loading them",
 "Tests load the bundled schemas, mostly one per process.",
 ["punx/schema_manager.py"], [("patterns", "punx/schema_manager.py:SchemaManager.parse_nxdl_patterns"), ("types", "punx/schema_manager.py:SchemaManager.parse_nxdlTypes"), ("root", "punx/schema_manager.py:Schema_Root")], None, ["SchemaManager(..).nxdl"])

prop("C21", "A file counts as NeXus exactly when it has an NXentry group at its root",
 "A file is taken for a NeXus file exactly when some group directly below its root has the NX_class NXentry, whatever else is there: other groups, fields, and links that cannot be followed. "
 "A missing file is neither. "
 "The tree view marks exactly the NeXus files as such.",
 ["inputs"], "all HDF5 files",
 "Tests try three files.",
 ["punx/utils.py", "punx/h5tree.py"], [("decision", "punx/utils.py:isNeXusFile"), ("class of a group", "punx/utils.py:isNeXusGroup")], None, ["isNeXusFile()", "first line of punx tree"])

prop("C22", "Every readable HDF5 file can be validated and reported",
 "Validating any file whose content h5py can read ends with findings for it and never fails with an exception, whatever attribute values, types, shapes, names and links it has. "
 "The report of such a validation can always be printed. "
 "The file is opened for reading only and is not changed.",
 ["inputs"], "all HDF5 files, all bundled NXDL file sets",
 "Tests use well-formed files.",
 [V, VV+"attribute.py", VV+"item_name.py", VV+"default_plot.py", VV+"application_definition.py", VV+"hdf5_group_items_in_base_class.py", "punx/utils.py"],
 [("run", V+":Data_File_Validator.validate"), ("dispatch of attributes", VV+"attribute.py:verify")], None, ["punx validate FILE"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
