"""The properties: one table, from which properties.jsonl and MANIFEST.json are written (python3 tools/gen.py)."""

AI = "trace-partitioned abstract interpretation of the source (regular-language and container domains)"
LN = ("For every value in the described input classes (regular languages over all characters, JSON kinds, lists and "
      "dictionaries of any size), no path of the current source reaches the forbidden outcome; paths the analysis cannot "
      "follow precisely are counted as undecided in the evidence and never reported as held. Trusts the models of Python "
      "builtins and libraries in sa/engine.")
INP = ["inputs"]
IV = "ocfl/inventory_validator.py"

P = []


def add(pid, title, statement, over, text, why, files, mechanism, observe, technique=AI, note=LN, state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))


add("V02", "Bad top-level inventory elements are always reported",
    "Validating an inventory in which id, type, digestAlgorithm, head, manifest or versions is missing, is of the wrong JSON "
    "type, or has a value OCFL does not allow (an empty or non-string id, a type other than the exact URI of a supported "
    "version, a digest algorithm other than sha512 or sha256, a contentDirectory that is not a string, contains a slash or is '.' or '..') "
    "reports an error and does not give a verdict of valid, whatever the other elements are.",
    INP, "all JSON values for each top-level element", "Tests use one or two sample wrong values for each element; the claim is about every wrong value, including near misses such as an allowed URI with text before or after it.",
    [IV], [{"name": "top-level element checks", "where": IV + " InventoryValidator.validate"}],
    ["InventoryValidator.validate verdict", "validation log"])
add("V03", "Bad version blocks are always reported",
    "Validating an inventory in which any version block, first or later, lacks created or state, or has a created that is not a full "
    "RFC3339 date and time with timezone, a message that is not a string, a user that is not an object with a string name (and a "
    "string address if present), or a state that is not a digest to path-list object, reports an error and does not give a "
    "verdict of valid. A missing message or user is only a warning.",
    INP, "all JSON values for each element of a version block, in any version", "Tests have one fixture per mistake, always in the same version, and cannot cover the space of malformed dates or JSON types.",
    [IV, "ocfl/w3c_datetime.py"], [{"name": "version block checks", "where": IV + " InventoryValidator.validate_versions"},
                                   {"name": "date parsing", "where": "ocfl/w3c_datetime.py str_to_datetime"}],
    ["InventoryValidator.validate verdict"])
add("V04", "Version sequence and head: gaps, padding and format",
    "The version directories named in an inventory are accepted only when they are v1..vN without gaps in one consistent "
    "format (either unpadded or zero-padded to one fixed width) and head names the highest of them; any other set of version keys or any other "
    "head is reported as an error, and every such conforming sequence is accepted.",
    INP, "all sets of version keys up to the enumerated sizes, all strings as an extra key, all head strings", "Sequences of versions and padding formats form an unbounded space; tests use a few short sequences.",
    [IV], [{"name": "version sequence", "where": IV + " InventoryValidator.validate_version_sequence"}],
    ["InventoryValidator.validate verdict"])
add("V05", "Unsafe or conflicting paths in an inventory are rejected",
    "An inventory is never judged valid if any content path or logical path is absolute, ends in a slash, or contains an empty, '.' or '..' "
    "element, if a content path is not of the form version directory / content directory / path, if a path occurs twice where it must be unique, or if a path is "
    "also a parent directory (at any depth) of another path, whatever characters the paths contain and wherever they stand.",
    INP, "all strings as paths, at every position, after any number of other paths", "The set of unsafe strings is infinite (line breaks, nesting depth); tests sample a few.",
    [IV], [{"name": "logical path check", "where": IV + " InventoryValidator._check_logical_path"},
           {"name": "content path check", "where": IV + " InventoryValidator._check_content_path"}],
    ["InventoryValidator.validate verdict"])
add("V06", "Manifest and state digests always cross-reference",
    "An inventory is never judged valid unless every digest in every version state is, letter for letter, one of the digests of the manifest, every manifest digest is used by some "
    "version, every digest is well formed for the inventory's digest algorithm, no manifest digest occurs twice in different letter case, and each maps to a "
    "list of path strings.",
    INP, "all digest strings and JSON values in manifest and state, across versions", "Every combination of digests, letter case and position would need a test.",
    [IV, "ocfl/digest.py"], [{"name": "digest cross-reference", "where": IV + " InventoryValidator._check_digests_present_and_used"},
                             {"name": "digest normalization", "where": "ocfl/digest.py normalized_digest"}],
    ["InventoryValidator.validate verdict"])
add("V07", "Malformed fixity blocks are always reported",
    "An inventory whose fixity element is not an object of algorithm blocks, or has a block with an ill-formed digest, the same digest in "
    "two letter cases, a value that is not a list of paths, or a path that is not in the manifest, or names an algorithm that is not "
    "recognised (unless lax checking of digests is asked for), is reported with an error and never judged valid.",
    INP, "all JSON values in the fixity block, all algorithms in the digest table", "Tests use a handful of malformed fixity blocks for one or two algorithms.",
    [IV, "ocfl/digest.py"], [{"name": "fixity block checks", "where": IV + " InventoryValidator._validate_fixity"}],
    ["InventoryValidator.validate verdict"])
add("V08", "Every conforming inventory is accepted without errors",
    "An inventory that conforms to OCFL 1.0 or 1.1 (any number of files and versions, any logical path without forbidden elements, either "
    "letter case of digests, padded or unpadded versions, any custom content directory, any optional element present or absent, any timezone offset and "
    "fraction of a second in created) is judged valid and no error is reported for it.",
    INP, "all conforming inventories of the described shapes", "The space of conforming inventories is unbounded; a false alarm shows only on the unusual ones.",
    [IV], [{"name": "whole inventory validation", "where": IV + " InventoryValidator.validate"}],
    ["InventoryValidator.validate verdict", "validation log"])

FSN = ("For every object of the described shapes (1 to 3 or 4 versions, symbolic names, identifiers and contents, digests injective in content) "
       "and every described kind of damage at every place, no path of the current source reaches the forbidden outcome. Other shapes are outside the bounds. "
       "Trusts the models of Python builtins, libraries and file storage in sa/engine.")
VA = "ocfl/validator.py"
SRT = "ocfl/storage_root.py"
HST = ["inputs", "histories"]

add("V01", "The verdict follows from the errors reported",
    "Validating an object returns a verdict of valid exactly when no error was recorded for that object: warnings, the settings for which messages to show, the "
    "language of messages, and objects validated before with the same validator never change the verdict, every error is recorded "
    "by its code, and shown exactly when errors are to be shown.",
    HST, "all combinations of display settings, and pairs of objects validated in sequence by one validator", "Tests look at one verdict per object, mostly with the default settings and a new validator each.",
    [VA, "ocfl/validation_logger.py", "ocfl/object.py"], [{"name": "verdict", "where": VA + " Validator.validate_object"}, {"name": "log", "where": "ocfl/validation_logger.py ValidationLogger"}],
    ["Validator.validate_object result", "ValidationLogger.num_errors, codes, messages"], note=FSN)
add("V09", "Content files always match the inventory",
    "With digest checking on, an object is never judged valid if a content file listed in the manifest is absent, has other content than its digest "
    "or any recorded fixity digest says, or is not a file, or if the content directory of any version holds a file that the manifest does not list "
    "or an empty directory; an object whose content matches is accepted.",
    INP, "all places and kinds of damage to content files of objects with 1 to 3 versions, arbitrary names and contents", "Tests have a fixture for a few single damages; which file, which version and which part of the file is damaged is never varied.",
    [VA, "ocfl/digest.py"], [{"name": "content check", "where": VA + " Validator.validate_content"}],
    ["Validator.validate_object verdict", "validation log"], note=FSN)
add("V10", "Inventory digest files always match their inventories",
    "An object is never judged valid if the inventory digest file of the root or of any version inventory is missing, named for another algorithm than "
    "the inventory's, malformed, or holds a digest other than that of the inventory beside it; every correct digest file with any white space between "
    "digest and name is accepted.",
    INP, "all places and kinds of damage to inventory digest files, for both digest algorithms", "Tests have one fixture per kind of damage, in the root only.",
    [VA], [{"name": "digest file check", "where": VA + " Validator.validate_inventory_digest"}],
    ["Validator.validate_object verdict", "validation log"], note=FSN)
add("V11", "The structure of an object is checked completely",
    "An object is never judged valid if its declaration is missing, repeated, of a name or content that is not that of a supported version, or disagrees "
    "with the root inventory's version, if its root or a version directory holds a file or directory that OCFL does not allow there, or if a version directory named in the "
    "inventory is absent; allowed extras (extensions, logs, other directories in a version) do not make it invalid.",
    INP, "all names and kinds of unexpected entries, at the root and in each version directory, and all declarations", "Tests use a few sample names; the claim is over every name, place and kind of entry.",
    [VA, "ocfl/namaste.py"], [{"name": "object structure", "where": VA + " Validator.validate_object_root, validate_version_directory"}],
    ["Validator.validate_object verdict", "validation log"], note=FSN)
add("V12", "Inventories of older versions agree with the root inventory",
    "An object is never judged valid if the inventory in any version directory is invalid, belongs to another object or version, uses another content directory, "
    "describes other contents for any version than the root inventory does, has a higher specification version than a later one, or (for the latest version) differs from the "
    "root inventory; differences in digest algorithm, and in messages or times (which are only warnings), are accepted.",
    HST, "all single changes to any version's inventory for objects of up to 4 versions, with equal and different digest algorithms and specification versions", "Tests contain one fixture for a few of the disagreements, in one version each.",
    [VA, IV], [{"name": "comparison of inventories", "where": VA + " Validator.validate_version_inventories; " + IV + " InventoryValidator.validate_as_prior_version"}],
    ["Validator.validate_object verdict", "validation log"], note=FSN)
add("V13", "Validation always ends with a verdict",
    "Whatever the files of an object contain (an inventory that is any JSON value or no JSON at all, undecodable bytes, files in place of directories and the reverse, missing or "
    "repeated files), validating it ends with a verdict and reports; it never raises an exception.",
    INP, "arbitrary JSON at each place of an inventory, arbitrary text, bytes, kinds and absence for each file of the object", "A crash needs one particular malformed input that no fixture contains.",
    [VA, IV, "ocfl/digest.py", "ocfl/namaste.py"], [{"name": "error handling", "where": VA + " Validator.validate_object"}, {"name": "type checks", "where": IV + " InventoryValidator.validate"}],
    ["exceptions leaving Validator.validate_object and InventoryValidator.validate"], note=FSN)
add("V14", "Looking never changes anything",
    "Validating, listing, showing or identifying an object, inventory or storage root, valid or damaged, never creates, changes, "
    "renames or removes any file or directory, also when the operation fails.",
    INP, "all reading operations on the valid and damaged objects and storage roots", "Tests check what these operations return, not what they leave alone.",
    ["ocfl/object.py", VA, SRT, "ocfl/fsw.py", "ocfl/object_utils.py"], [{"name": "opening of file systems", "where": "ocfl/fsw.py fsw_openfs"}, {"name": "operations", "where": "ocfl/object.py Object"}],
    ["file system effects"], technique="effect analysis by abstract interpretation over an abstract file storage", note=FSN)
add("V15", "Reports agree with the table of messages",
    "Every error or warning code that can be reported has an English description in the message table, every report supplies all parameters of its description, errors "
    "have E codes and warnings W codes, and the message shown consists of the code, the description (in the language asked for if there is one) with the parameters filled in, and for codes "
    "of the specification the link to its section for the specification version in use.",
    INP, "all codes of the table, all reporting calls of the source, all parameter values", "Tests trigger only some of the codes, and a wrong parameter name shows as ??? in a message that is not compared.",
    ["ocfl/validation_logger.py", "ocfl/data/validation-errors.json", VA, IV, SRT], [{"name": "table", "where": "ocfl/data/validation-errors.json"}, {"name": "message", "where": "ocfl/validation_logger.py ValidationLogger.log"}],
    ["ValidationLogger.messages"], technique="table agreement over the syntax tree, and abstract interpretation of reports and messages", note=FSN)

OBJ = "ocfl/object.py"
NV = "ocfl/new_version.py"
ALLP = ("For requests of the described kinds (objects of 1 to 3 versions, several source trees and all settings), no path of the current source, from the public call to the effects on "
        "the storage, reaches the forbidden outcome. Other shapes are outside the bounds. Contents and digests are symbolic (digests injective in content). "
        "Trusts the models of Python builtins, libraries and file storage in sa/engine.")

add("V16", "Adding a version never touches earlier versions",
    "Adding a version to an object, from a source directory or by single operations, in any setting (digest algorithm kept or changed, deduplication, forward delta, content directory, padding), never "
    "creates, changes or removes anything in the directory of an earlier version, nor changes the object declaration, the source, or anything outside the object; "
    "this also holds when the storage fails at any single writing step.",
    ["inputs", "crash points"], "42 kinds of update of objects with 1 to 3 versions, and every single failing write of four of them", "Tests check the new version, not that old files are left alone, and never let a write fail.",
    [OBJ, NV], [{"name": "writing of versions", "where": OBJ + " Object.write_new_version, write_version"}, {"name": "copying of content", "where": NV + " NewVersion"}],
    ["file system effects"], technique="effect analysis by abstract interpretation over an abstract file storage, with a failing operation at each step", note=ALLP)
add("V17", "Objects written are valid and hold exactly what was asked for",
    "After an object is created, built from version directories, or updated, it is valid OCFL, every version holds exactly the logical files of its source with their content, "
    "the new version has the metadata that was given, and the identifier, earlier versions, specification version, content directory, version format and digest algorithm are those of the "
    "object or the ones asked for; the inventory returned is the one stored.",
    HST, "42 kinds of update and 23 kinds of creation in all settings, with symbolic contents", "Tests compare a few results with fixtures; combinations of settings, duplicates in the source and changes of algorithm are not covered.",
    [OBJ, NV, "ocfl/inventory.py", "ocfl/version_metadata.py"], [{"name": "building", "where": OBJ + " Object.create, build, add_version_with_content"}, {"name": "new version", "where": NV + " NewVersion"}],
    ["stored inventory, digest files, declaration and content files"], note=ALLP)
add("V18", "The root inventory is replaced only when all else is stored",
    "When a version is added, every content file and the inventory and digest file of the new version are completely written before the root inventory is touched, and until then nothing "
    "outside the new version's directory is changed; afterwards only the root inventory and its digest file are written, and an old digest file is removed last. A new object gets its root "
    "inventory last in the same way, so an operation stopped at any earlier step leaves the old object, or no root inventory, and never reports success.",
    ["crash points"], "every point of the sequence of effects in 65 kinds of creation and update, and every single failing write in four of them", "Tests see only the final state; a wrong order shows only when the process is stopped at the right place.",
    [OBJ], [{"name": "order of writing", "where": OBJ + " Object.write_new_version, _write_version"}],
    ["sequence of file system effects"], technique="typestate of the storage effects, by abstract interpretation", note=ALLP)
add("V19", "Refused requests and dry runs change nothing",
    "A request to create, build or update that cannot be carried out (no identifier, settings or metadata that OCFL does not allow, a destination in use, a missing or misnumbered source, an object that is structurally invalid, "
    "a bad operation when assembling a version) is refused with an exception before anything is created, changed or removed; the same holds for dry runs, for an update without a difference when asked to stop in that case, "
    "and for assembling a version before it is written. A dry run returns the inventory a real run would store.",
    INP, "over 200 kinds of requests that must be refused or do nothing", "Tests check that an exception is raised, rarely that the storage is as before.",
    [OBJ, NV], [{"name": "checks before writing", "where": OBJ + " Object.create, build, start_new_version"}, {"name": "checks of single operations", "where": NV + " NewVersion.add, delete, rename"}],
    ["exceptions", "file system effects"], technique="effect analysis by abstract interpretation over an abstract file storage", note=ALLP)
add("V20", "Any sequence of add, delete and rename stores the result",
    "After any sequence of single operations (add a file, delete, rename) on a version being assembled, the stored version has exactly the files that the accepted operations leave, with the content of "
    "their sources, the object is valid, nothing is stored that no version refers to, operations that are refused change nothing, and with deduplication no content is stored twice in the version.",
    HST, "all sequences of up to 2 operations (3 in the thorough run) over a set of operations that interact, in each setting of deduplication and forward delta", "Sequences multiply; tests try a few.",
    [NV], [{"name": "single operations", "where": NV + " NewVersion.add, delete, rename"}], ["stored version state and content files"], state=["NewVersion inventory and list of files to copy"], note=ALLP)

add("V21", "Content is stored inside the new version's content directory, whatever the names",
    "Whatever the names of the source files and whatever content or logical path is asked for, each content file of a new version is stored at its own path inside the content directory "
    "of that version, every logical path is the name given, and holds its own content, and paths that are absolute, leave the directory, have empty, '.' or '..' elements or collide with other "
    "paths are refused before anything is stored; names and paths without these faults are accepted, under every way of forming content paths.",
    INP, "all names of source files and directories, and all content and logical paths asked for", "Names are unbounded; tests use a handful of ordinary ones.",
    [NV, "ocfl/object_utils.py", OBJ, "ocfl/inventory.py"], [{"name": "forming of content paths", "where": NV + " NewVersion._map_filepath, add"}, {"name": "unused paths", "where": "ocfl/object_utils.py make_unused_filepath"}],
    ["content paths and logical paths of the inventory", "file system effects"], technique="abstract interpretation with regular languages for names and paths, over an abstract file storage", note=ALLP)
add("V22", "Extraction yields exactly the version or file asked for",
    "Extracting a version (or the latest) of a valid object into an absent or empty directory leaves there exactly the logical files of that version with the content stored for them, "
    "and extracting one logical file leaves exactly that file; the metadata returned is that version's, and nothing outside the destination is touched. A request that cannot be "
    "carried out (a destination in use or without parent, no such version or file, an invalid inventory, unsafe paths) is refused and changes nothing.",
    INP, "every version and file of 15 shapes of objects (1 to 11 versions, duplicates, padding, digest algorithms and letter case, arbitrary names), and over 60 requests to be refused", "Tests extract from a few fixtures, and check few of the refusals.",
    [OBJ, "ocfl/inventory.py", "ocfl/version_metadata.py", "ocfl/fsw.py"], [{"name": "extraction", "where": OBJ + " Object.extract, extract_file"}, {"name": "logical paths", "where": "ocfl/inventory.py Version.digest_for_logical_path"}],
    ["files in the destination", "VersionMetadata returned"], note=ALLP.replace("1 to 3", "1 to 11"))

LAY = ["ocfl/layout.py", "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout_registry.py"]
add("V23", "Storage layouts give every object a safe path of its own",
    "Every storage layout maps an object identifier, whatever its characters and length, to a relative path inside the storage root without empty, '.' or '..' elements, and never maps two different identifiers "
    "to the same path; an identifier is refused, with a layout error, only where the layout has no such path for it. The hashed n-tuple layout and the flat direct layout give exactly the paths of their "
    "published definitions for all identifiers and parameters, and every layout is registered under the name it records.",
    INP, "all identifiers (Unicode strings), all registered layouts, several settings of their parameters", "Identifiers are unbounded; tests use a few of ordinary length and characters.",
    LAY, [{"name": "identifier to path", "where": "ocfl/layout_0003_hash_and_id_n_tuple.py _id_to_path, _get_encapsulation_directory and the other layouts"}, {"name": "registry", "where": "ocfl/layout_registry.py"}],
    ["object paths"], technique="abstract interpretation with regular languages and character maps shown to be prefix codes",
    note="For the parameters tried and every identifier, no path of the current source gives an unsafe path, and the identifier can be recovered from the path or its complete digest is part of it. Assumes that digests of different identifiers differ. Trusts the models of Python builtins and libraries in sa/engine.")

add("V24", "Adding an object puts it where the layout says and changes nothing else",
    "An object added to a storage root is stored, as an exact copy of its files, at the path that the layout recorded in the root, with its parameters, gives for its identifier, and nothing else in the "
    "root or in the source changes. It is never put over anything that is there already, inside another object, or in the extensions directory. A request that cannot be carried out (an invalid source object, "
    "no layout, a place in use) is refused with an exception and changes nothing, and a failing write is never reported as success.",
    ["inputs", "crash points"], "six layouts with several parameters, objects of several shapes and contents, symbolic identifiers, roots with and without other objects, every single failing write", "Tests add a few objects to roots with one layout.",
    [SRT] + LAY, [{"name": "adding an object", "where": SRT + " StorageRoot.add, object_path, check_object_location"}, {"name": "recorded layout", "where": SRT + " StorageRoot.check_root_structure, parse_layout_file"}],
    ["files of the storage root", "exceptions"], technique="effect analysis by abstract interpretation over an abstract file storage", note=ALLP)
add("V25", "Storage roots are listed and validated completely",
    "Listing or validating a storage root finds every object directory, at any depth, exactly once, with its identifier, and reports every misplaced directory (empty, with stray files, with a bad declaration or several) "
    "and every fault of the root's own declaration, layout description and extension configuration. The counts are right, and the verdict is positive exactly if nothing was reported and every object is valid, "
    "whatever was validated before with the same storage root. Neither raises an exception other than that the root cannot be opened.",
    INP, "over 1,300 shapes of storage roots: object directories at several depths, every kind of directory that is not an object, all faults of the root's files, combinations", "Tests validate a few fixture roots, each with a single fault.",
    [SRT, "ocfl/namaste.py"], [{"name": "traversal", "where": SRT + " StorageRoot.object_paths"}, {"name": "validation", "where": SRT + " StorageRoot.validate, validate_hierarchy"}, {"name": "root checks", "where": SRT + " StorageRoot.check_root_structure, parse_layout_file"}],
    ["objects listed", "problems reported, counts and verdict"], technique="abstract interpretation over an abstract file storage", note=ALLP)
add("V26", "Initializing a storage root gives a valid root that reopens the same",
    "Initializing a storage root creates a valid empty root with the specification version, layout and parameters asked for, which opened again has the same version and gives the same object paths. "
    "A location that exists already, a missing parent directory, an unsupported specification version, an unknown layout or bad layout parameters are refused with an exception before anything is created, "
    "and a failing write is never reported as success.",
    INP, "all layouts and supported versions, over 200 settings of parameters, good and bad, symbolic identifiers for the comparison of paths, every single failing write", "Tests initialize a few roots and rarely open them again.",
    [SRT] + LAY, [{"name": "initialization", "where": SRT + " StorageRoot.initialize, write_root_declaration"}, {"name": "opening", "where": SRT + " StorageRoot.open_root_fs, check_root_structure"}, {"name": "parameters", "where": "ocfl/layout.py Layout.read_layout_params, write_layout_params"}],
    ["files of the storage root", "exceptions", "object paths"], technique="abstract interpretation over an abstract file storage", note=ALLP)

add("V27", "Files are digested, compared and copied completely, whatever their size",
    "The digest of a file by each supported algorithm is that algorithm's digest of its whole content and has the form accepted for that algorithm, in either letter case; two files compare as identical exactly if all their bytes agree, "
    "and copying a file or a directory tree yields exactly the names and bytes of the source, with nothing left of what was there before, whatever the sizes and depths. "
    "So a stored object that differs from its inventory in a single byte or in length, anywhere in a content file, is never valid, and content created, updated or extracted is complete.",
    INP, "contents of unknown bytes of over 40 sizes at and around powers of two up to 4 MiB, and 100 MB (1 GB in the thorough run), differences at the first, last and power-of-two offsets, trees with arbitrary names",
    "Test files are a few bytes long: no test reads a second block.",
    ["ocfl/digest.py", "ocfl/fsw.py"], [{"name": "digests", "where": "ocfl/digest.py _file_digest, file_digest, string_digest, DIGEST_REGEXES"}, {"name": "copying and comparison", "where": "ocfl/fsw.py fsw_copyfile, fsw_copydir, fsw_files_identical, fsw_walk_files"}],
    ["digests", "bytes of copies", "result of comparisons"], technique="abstract interpretation with contents as runs of unknown bytes",
    note="For the sizes tried and all contents, no path of the current source skips, repeats or mixes up bytes. Assumes that a read of n bytes yields n bytes unless the file ends, and that different contents have different digests. Trusts the models of Python builtins and libraries in sa/engine.")

CLI = ["ocfl-validate.py", "ocfl-object.py", "ocfl-root.py", "ocfl/command_line_utils.py"]
add("V28", "The exit status of validation commands is that of what was validated",
    "A validation command ends with exit status 0 exactly when everything it was asked to validate is valid: every path given to ocfl-validate.py must be a valid object, storage root or inventory file, the object given to "
    "ocfl-object.py validate must be valid, and the storage root given to ocfl-root.py validate must be valid, with its objects if their validation is asked for. Anything else (damaged, of an unknown kind or version, "
    "absent, unreadable as JSON), alone or anywhere among good ones, gives another status, whatever the options for what is shown.",
    INP, "over 400 command lines on good and faulty objects, roots, inventories and other paths, alone and combined, with all options", "Tests run a few command lines and look at the text printed.",
    CLI[:2] + CLI[2:] + ["ocfl/object_utils.py"], [{"name": "validation tool", "where": "ocfl-validate.py do_validation"}, {"name": "other tools", "where": "ocfl-object.py do_object_operation, ocfl-root.py validate"}, {"name": "kind of a path", "where": "ocfl/object_utils.py find_path_type"}],
    ["exit status"], technique="abstract interpretation of the command line tools over an abstract file storage", note=ALLP)
add("V29", "Commands do what their options ask for, or fail and change nothing",
    "Creating, building, updating, showing or extracting an object (ocfl-object.py), and creating, listing, adding to or locating an object in a storage root (ocfl-root.py), does what the options of the command say: "
    "the object stored or found has the identifier, digest algorithm, specification version, version metadata, fixity algorithms, files and place asked for, what is extracted is the version or logical file asked for, "
    "and paths and lists printed are those of the storage root. A command that cannot do so (a missing, unknown or bad option, nothing at the path, a place in use) ends with a failure status and changes nothing.",
    INP, "over 110 command lines, each option by itself and in combinations, on abstract objects and storage roots", "Tests run a few command lines and look at the text printed.",
    CLI[1:], [{"name": "object commands", "where": "ocfl-object.py parse_arguments, do_object_operation"}, {"name": "storage root commands", "where": "ocfl-root.py parse_arguments, do_store_operation"}],
    ["exit status", "files stored", "text printed"], technique="abstract interpretation of the command line tools over an abstract file storage", note=ALLP)
add("V30", "Deduplication and forward delta decide how often content is stored",
    "With deduplication on, a new version stores each content at most once, however many files have it, and with it off each file with new content gets its own copy; with forward delta on, content that any earlier "
    "version of the object already holds is not stored again, and with it off it is stored again as if it were new. This holds in every combination of the two settings with the others (digest algorithm kept or changed, content "
    "directory, version padding, content names, specification version), for objects created, built, updated or assembled by single operations, with any number of earlier versions, and the versions stored are still what was asked for.",
    INP, "sources with new, repeated, already stored and empty content, in all four settings combined with the other settings", "Tests use one or two settings on one fixture and rarely count the files stored.",
    [NV, OBJ], [{"name": "choice of what to store", "where": NV + " NewVersion.add"}, {"name": "settings handed on", "where": OBJ + " Object.create, build, start_new_version, add_version_with_content"}],
    ["content files in the new version directory"], technique="abstract interpretation over an abstract file storage", note=ALLP)

NA = []
