"""Level, note and unchecked assumptions of every property; read by gen_manifest.py."""
P = "proof"
TAIL = " A bounded stand-in (generated cases on the real code against an independent reference, labelled bounded in the evidence) runs beside it and gives the failing input of an alarm."
LEVEL = {
    "C01": (P, "All functions of item_name.py and isNeXusLink proved equal to the name rules for every name, pattern table and attribute; that they are called once for every item is the contract of validate.validate (C10)." + TAIL),
    "C02": (P, "Class rules proved for every class table: group judgement, NX_class attribute (spelling and known), usedAsBaseClass, the NX_class part of item names, and the table itself from the file list (NXDL_Manager)." + TAIL),
    "C03": (P, "All handlers of pointer attributes, their dispatch, the lists of axes and child existence proved for every attribute value of the modelled types." + TAIL),
    "C04": (P, "Comparison of a group with its base class proved for any number of items, fields, groups and attributes (loop summaries, no bound)." + TAIL),
    "C05": (P, "application_definition.verify and first_value proved for any definition and any entry; that it is called for every definition field is part of the contract of validate.validate." + TAIL),
    "C06": (P, "The catalogue step (one item, its children, the links that lead back) proved as one recursion step under the contract of itself; the constructor of ValidationItem proved. Termination is not proved." + TAIL),
    "C07": (P, "verify and default_plot_v3 proved for every list of signal attributes, default_plot_v2 for every catalogue; validate.validate calls verify once." + TAIL),
    "C08": (P, "record_finding, Finding, the score and the summary proved for every list of findings, over the integers (counts) and the reals (quotient)." + TAIL),
    "C09": (P, "print_report proved for every list of findings and every selection: which rows go into the table, from which sorted list; the layout of the table package is trusted and bounded." + TAIL),
    "C10": (P, "validate() proved to give a result that is a function of the catalogue and the class table, from any earlier state of the validator; every proved function has the frame condition that it writes nothing else (writes to shared objects, module globals or class attributes are refuted or leave the contract undecided)." + TAIL),
    "C11": (P, "Every function of h5tree.py and the tree command proved against the list of lines the specification gives, for any group, attributes and links; recursion by contract." + TAIL),
    "C12": (P, "_decideNumShown, _renderNdArray and its callers proved for every shape and limit; numpy indexing is modelled as a function from index to item." + TAIL),
    "C13": (P, "decode_byte_string, _decode_items, attribute_text, isHdf5Child proved for all values of the modelled types (text, bytes, numbers, arrays of them, others), and the line of a field in the tree view." + TAIL),
    "C14": (P, "Every parser of nxdl_manager.py proved for any XML element with any children: one entry for each, at its name, made distinct by the smallest free number." + TAIL),
    "C15": (P, "get_NXDL_file_list, set_file and NXDL_Manager proved for any directory content." + TAIL),
    "C16": (P, "select, both listings of file sets and the information file proved for any content of the caches." + TAIL),
    "C17": (P, "Unpacking, the filter of archive members, download and the install command proved against a recorded sequence of file system effects, with a failure at any effect that may fail; the system calls themselves are trusted." + TAIL),
    "C18": (P, "parse_args of the argument parser proved for every word and every list of subcommands." + TAIL),
    "C19": (P, "validate, tree and install commands, NXDL validation and the exit message proved: every outcome of the callees (result or any exception of theirs) ends as the property says." + TAIL),
    "C20": (P, "Patterns, types and the root of the schema reader proved for any schema tree of the form that the schema of schemas enforces." + TAIL),
    "C21": (P, "isNeXusFile and isNeXusGroup proved for any root group." + TAIL),
    "C22": (P, "Safety part of all contracts of a validation (C01 to C07, print_report): no exception leaves any of the functions, for all inputs of the model; composed in validate.validate. That the file is not changed is the opening mode in the contract, and bounded (the file is compared)." + TAIL),
}
ASSUME = {
    "all": [
        "the reading of Python by engine/interp.py and the models of builtins and packages in engine/models.py and engine/world.py",
        "partial correctness: termination of recursion and of while loops is not proved",
        "integers and floats of the program are mathematical integers and reals in obligations",
    ],
    "C01": ["re.match and re.fullmatch of the rules and of the patterns of a file set are modelled as membership of the whole text in a language (patterns of a file set: any language)", "text has no lone surrogates other than those of undecodable bytes"],
    "C03": ["arrays of text hold only text", "the value of an attribute is text, bytes, a number, an array of one of them, or another value that is none of these"],
    "C05": ["the values of the fields of the entry can be read"],
    "C06": ["HDF5 names are nonempty text without '/' (names that are not UTF-8: bounded only)", "the address catalogue is keyed by text", "HDF5 names with '@' are told from attributes by the item, not by the address", "equal HDF5 objects are of one kind", "h5py raises only KeyError or RuntimeError for a link that cannot be followed"],

    "C08": ["a finite sum over a list is additive (rules of engine/models.py for sums and counts)"],
    "C09": ["the table package prints the rows it is given, in that order (bounded)"],
    "C10": ["writes outside the frame are seen by the engine because every object reachable from the inputs is symbolic; state of h5py and lxml is not modelled"],
    "C11": ["the data of a dataset can be read", "links asked for exist in the group they were listed from", "named datatypes have no children"],
    "C12": ["indexing of a numpy array is a total function on indices in range"],
    "C14": ["elements have the attributes that nxdl.xsd requires, and at most one dimensions element", "NXDL_File_Set reads its schema when first asked, which changes nothing that is read here"],
    "C15": ["pathlib globbing lists the directory"],
    "C16": ["a time stamp is a tuple ordered as an integer"],
    "C17": ["zipfile, shutil, tempfile and requests do what their manuals say, or raise", "no other process works in the cache; a crash between the two final moves is not covered"],
    "C18": ["argparse's own parsing of the expanded command line; ArgumentParser.error ends the process"],
    "C19": ["argparse's own parsing; ArgumentParser.error ends the process"],
    "C20": ["the schema files are valid: names, bases and values are present, one restriction of each valid... type, at most one maxLength, no valid... base restricts another valid... type, local names contain no '}'"],
    "C21": ["h5py raises only KeyError or RuntimeError for a link that cannot be followed"],
    "C22": ["h5py can read the attributes and the values that are asked for"],
}
