"""The table of properties."""

AI = 'abstract interpretation'
ENGINE = ('Decided by interpreting the current source over abstract values (segmented strings over character classes, tracked heap, modelled '
          'file system and librpm), partitioning at every branch. A report needs a definite violation with a concretisation in the partition; paths '
          'that hit an unmodelled construct are counted as undecided and never reported. ')


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': ['specfile/' + f for f in files], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                        'mechanism': [dict(name=a, where=b) for a, b in mech], 'observe_at': list(observe), 'hook_needed': None},
            'technique': technique, 'note': note}


PROPS = [
    P('C01', 'Untouched views write back exactly the text they were read from',
      'Reading any part of a spec file through one of the structured views (sections, tags and comments, macro definitions, %prep, changelog, '
      'source and patch lists) and writing the view back unmodified reproduces every line exactly, including whitespace, blank lines, comments, '
      'conditional wrappers, multi-line values and lines the view does not understand.',
      ['inputs'], 'every sequence of lines the view can be given (bounded number of lines per obligation, free text inside the line shapes)',
      'Tests compare a few dozen hand-written fragments; the number of combinations of whitespace, brackets, continuations and conditional wrappers is unbounded.',
      ['sections.py', 'tags.py', 'macro_definitions.py', 'prep.py', 'changelog.py', 'sourcelist.py', 'utils.py'],
      [('parse / get_raw_data pairs', 'specfile/*.py'), ('bracket counting for multi-line values', 'specfile/utils.py count_brackets')],
      'path-sensitive abstract interpretation of parse/serialise pairs over segmented strings',
      ENGINE + 'Bounded by the number of lines per obligation (2 quick, 4 thorough for free combinations of line shapes).'),
    P('C02', 'Parsed values and option strings render back exactly',
      'Splitting a tag or macro value into its literal and macro parts, or an option string into tokens, and rendering the parts again gives the '
      'identical string; input that cannot be split is refused with a specfile exception and never with another error.',
      ['inputs'], 'every string (bounded number of free characters and syntax fragments per obligation)',
      'Tests list a few values and option strings; quoting, escapes, nested and unterminated macros combine without bound.',
      ['value_parser.py', 'options.py'], [('ValueParser.parse and node rendering', 'specfile/value_parser.py'), ('Options.tokenize and Token rendering', 'specfile/options.py')],
      'path-sensitive abstract interpretation over symbolic characters and syntax fragments', ENGINE + 'Bounded by the number of characters and fragments.'),
    P('C03', 'Loading and saving is faithful and only saving writes the spec file',
      'For a file with LF line ends, the text of a loaded spec file is the file content whatever bytes it has, saving or leaving the spec file context writes exactly the '
      'current text to the current path, and reloading reads the current path. Without autosave no other operation writes the spec file, and reading through any '
      'accessor changes neither the text nor the file.',
      ['inputs', 'histories'], 'every file content without carriage returns (bounded number of lines), every accessor',
      'Tests load a handful of UTF-8 files; exotic line separators, undecodable bytes, missing final newlines and the read-only behaviour of every accessor are not enumerated.',
      ['specfile.py', 'spec_parser.py'], [('read_lines / __str__ / save', 'specfile/specfile.py')],
      'abstract interpretation with an effect log of file-system writes', ENGINE + 'File content is up to 3 arbitrary lines; accessors are read over one 21-line spec file with free holes.'),
    P('C04', 'Changes made through a view reach the content on every way out',
      'A change made through any view (lines, sections, tags, changelog, %prep, sources, patches, macro definitions) or through an attribute of the spec file '
      'is in the content once the view is left, and nothing else in the content changes, whether the block ends normally or by an exception, which '
      'propagates. With autosave the file then equals the content, without it the file is untouched.',
      ['inputs', 'crash_points', 'histories'], 'every view, every way of leaving it, and every compatible nesting or sequence of two views',
      'Tests leave blocks normally; exceptional exits of each accessor, nestings and sequences multiply.',
      ['specfile.py', 'context_management.py'], [('accessor generators and their finally blocks', 'specfile/specfile.py'), ('ContextManager', 'specfile/context_management.py')],
      'abstract interpretation of generator-based context managers including exceptional exits', ENGINE + 'One change per view, two views per history.'),
    P('C05', 'Nested uses of a view share one object and instances never share any',
      'Opening an accessor again while it is open on the same instance with the same arguments yields the very same object, so no change is lost; a view '
      'opened after the previous one was left reflects the content at that time. Views of different instances (also copies and instances over equal '
      'content) and of different sections are distinct and never affect each other.',
      ['histories'], 'every accessor, two nesting levels, two instances in every interleaving of enter, change and leave',
      'The bookkeeping of open views is keyed by pickled arguments and object identity; tests try one nesting of one accessor.',
      ['context_management.py', 'specfile.py'], [('ContextManager.generators / values', 'specfile/context_management.py')],
      'abstract interpretation with tracked object identity', ENGINE + 'Two nesting levels, two instances.'),
    P('C06', 'Expansion and parse results always reflect the current state',
      'Whenever a spec file is asked for anything that needs RPM (expanding a string, expanded tag values and source locations, the parsed RPM object, '
      'active macros, parsed sections), the answer comes from a parse of the current content of that very instance with its current macro overrides and '
      'source directory, no matter what was changed, reloaded, failed to parse, or was done with other instances in between.',
      ['histories'], 'histories of up to two changes between queries over two instances, all queries and kinds of change',
      'The macro context is one process-wide table and parses are skipped by a hash; staleness appears only in particular histories.',
      ['spec_parser.py', 'specfile.py', 'macros.py', 'tags.py', 'sources.py', 'value_parser.py'], [('parse hash', 'specfile/spec_parser.py parse'), ('expand', 'specfile/specfile.py')],
      'abstract interpretation of histories against a model of the global macro table', ENGINE + 'At most two changes between queries.'),
    P('C07', 'The macro context of a parse is exactly what was asked for',
      'Every RPM parse runs in a context of the configured macros with the overrides applied in order (None removes a macro), then the extra macros of the '
      'call, then the source directory; nothing is left over from earlier parses, extra macros of other calls or other instances. Resetting the macro '
      'context to a level removes exactly the macros above that level, and defining or removing a macro leaves exactly one or no definition.',
      ['inputs', 'histories'], 'override and extra-macro lists from 14 x 7 shapes, two instances in sequence, all macro levels',
      'Leftovers depend on what was parsed before in the same process; tests use fresh single parses.',
      ['spec_parser.py', 'macros.py'], [('Macros.reinit / define / remove', 'specfile/macros.py'), ('get_rpm_spec', 'specfile/spec_parser.py')],
      'abstract interpretation against a model of the stacked macro table', ENGINE + 'Override lists come from a finite list of shapes.'),
    P('C08', 'Standard error, environment and temporary files are always restored',
      'Whatever RPM or the operating system does (success, parse error, interrupt, failure to create or write a temporary file), after every operation '
      'standard error, the open descriptors, the locale variables and the temporary files are as before. While RPM runs, standard error is captured, and '
      'while it parses a spec file the locale is pinned to C.UTF-8.',
      ['crash_points', 'inputs'], 'every operation that calls RPM, at most one fault at any acquisition point, set or unset locale variables',
      'Tests cannot make each system call fail in turn and look only at the normal path.',
      ['context_management.py', 'spec_parser.py', 'macros.py'], [('capture_stderr', 'specfile/context_management.py'), ('_sanitize_environment', 'specfile/spec_parser.py')],
      'path-sensitive resource (typestate) analysis with fault injection at every acquisition', ENGINE + 'One fault per path; restoring a descriptor is assumed not to fail.'),
    P('C09', 'Parsing leaves the source directory untouched',
      'To let RPM parse, missing sources (with forced parsing also those found only in %include, %{load:} or shell references) are replaced by dummy files, with the signature their extension calls for, created directly in the source directory and only where nothing exists '
      '(not even a dangling link); all of them are gone after the parse, whether it succeeds, fails or writing fails half-way. Existing files are '
      'never written or removed, every source exists during the full parse, and the result is marked as tainted exactly when a failed first parse was forced.',
      ['inputs', 'crash_points'], 'all shapes of source locations and kinds of directory entries, include/load/shell references, one write fault, every RPM outcome',
      'Tests use a tidy source directory and successful writes.',
      ['spec_parser.py', 'utils.py'], [('_make_dummy_sources', 'specfile/spec_parser.py'), ('get_filename_from_location', 'specfile/utils.py')],
      'abstract interpretation with a file-system effect log and fault injection', ENGINE + 'Locations from a finite list of shapes, at most two sources, one write fault.'),
    P('C10', 'Adding or removing one item leaves every other line alone',
      'Removing a tag, macro definition, %prep macro, source list entry, section or changelog entry (by index of either sign, slice, name, or patch number) drops exactly '
      'the lines of that item and the comments attached to it, and adding one adds exactly its line between its neighbours; every other line, '
      'including comments, conditions and lines the view does not understand, stays in its place. Only blank lines next to a removed tag may be merged.',
      ['inputs', 'histories'], 'every container, every position, every shape of the lines around the item (three items, free text)',
      'Tests delete one or two items from tidy lists; the lines stored between items, negative indices, slices and ends of the list multiply.',
      ['tags.py', 'macro_definitions.py', 'prep.py', 'sourcelist.py', 'sections.py', 'changelog.py', 'options.py'],
      [('__delitem__ / insert of the containers', 'specfile/*.py'), ('add_patch_macro / remove_patch_macro', 'specfile/prep.py')],
      'path-sensitive abstract interpretation of container edits compared with line-level edits', ENGINE + 'Three items per container; pop, remove and clear inherited from the standard list class are outside.'),
    P('C11', 'Validity of lines follows the nesting of conditions',
      'A tag, macro definition or source list entry is valid exactly when every condition around it holds: %if and %elif by their expanded expression (non-zero '
      'number or non-empty text; false if it cannot be expanded), %ifarch, %ifnarch, %ifos and %ifnos by their operands, %else when no earlier branch was taken. '
      'Nesting of any depth, operands continued on further lines and conditions whose beginning is outside the text are handled; text of macro definitions never opens or closes a condition.',
      ['inputs'], 'all sequences of up to 4 condition lines, all well-formed ones up to 7, keyword and expression variants',
      'Tests check a few nestings; branches taken, nesting and %elif chains combine exponentially.',
      ['conditions.py', 'tags.py', 'macro_definitions.py', 'sourcelist.py'], [('process_conditions / resolve_expression', 'specfile/conditions.py')],
      'abstract interpretation against a reference automaton of nested conditions', ENGINE + 'Bounded number of lines; the outcome of expanding an expression is a free choice.'),
    P('C12', 'Refused operations raise the documented error and change nothing',
      'Adding a source or patch location that is already there (unless duplicates are allowed), a patch number not above all existing ones, setting, updating or deleting '
      'something that does not exist, an index out of range, an invalid tag or section name, a flag with an argument or an option without one, a pre-release pattern without a '
      'group, a changelog entry without any author, and loading a file that does not exist raise the documented exception. The content, the file '
      'and the view are then exactly as before and the spec file stays usable; the same operations without the obstacle are accepted.',
      ['inputs', 'histories'], 'every kind of refusal, every numbering style and position, with and without autosave',
      'Tests check that an exception is raised for a few cases, not that nothing changed, nor every way of adding.',
      ['sources.py', 'specfile.py', 'tags.py', 'sections.py', 'options.py', 'changelog.py'], [('checks before mutation', 'specfile/sources.py insert / insert_numbered'), ('add_patch', 'specfile/specfile.py')],
      'abstract interpretation of exceptional paths with comparison of the state before and after', ENGINE + 'A finite list of refusals.'),
    P('C13', 'Versions compare, hash and render consistently with RPM',
      'For objects of one kind with the same name and architecture, the six comparison operators of EVR, NEVR and NEVRA agree with the RPM label comparison of epoch, version and '
      'release; objects of different kinds, names or architectures are unequal and cannot be ordered; equal objects have equal hashes. The string of an object '
      'parses back to an object with the same fields, and malformed strings and unknown architectures raise a specfile exception.',
      ['inputs'], 'all pairs of a table covering every outcome of the label comparison; strings with free text',
      'Tests compare a handful of pairs; coherence of six operators, three classes and the hash over equal-but-different spellings is a relation over all pairs.',
      ['utils.py'], [('operators and _key', 'specfile/utils.py EVR, NEVR, NEVRA')],
      'abstract interpretation against a reference implementation of the label comparison', ENGINE + '28 x 28 pairs of EVRs; free text of up to two characters in strings.'),
#MID
    P('C18', 'An updated tag gets the requested value and only its parts change',
      'After updating a tag to a value, the tag expands to exactly that value, keeping references to macros and tags where the new value fits; updating the version with a pre-release pattern does the same for the '
      'version with the suffix after a tilde, commenting the pre-release macro out or in accordingly. The only other lines that change are valid, unprotected macro definitions without options and tags before it '
      'that the value refers to, directly or indirectly; protected, inactive, later and unrelated ones stay as they are, and characters special to regular expressions or templates are taken literally.',
      ['inputs'], 'combinations of definitions, tag values and requested values; macros that may not be changed are not redefined after the tag',
      'Tests update a few spec files; how literal text, macros, conditional macros and protected names match a new value is combinatorial.',
      ['specfile.py', 'value_parser.py', 'macro_definitions.py', 'tags.py'], [('update_value / update_tag / update_version', 'specfile/specfile.py'), ('ValueParser.construct_regex', 'specfile/value_parser.py')],
      'abstract interpretation against an independent model of how RPM reads a preamble', ENGINE + 'Definitions, values and requested values from finite lists with free characters.'),
    P('C15', 'Copies are complete and independent and inputs are never shared',
      'A deep copy of a spec file or of any view equals the original, has the same text and settings, and a change to either never shows in the other. Lists of lines, items, comments, options or macros that a caller passes in or gets back are not shared '
      'with the object, and a shallow copy or slice has its own list of items. Parsing, rendering and comparing change neither the object nor its input and give the same result every time.',
      ['inputs', 'histories'], 'every kind of object and every kind of change to the original, the copy, the input and the output',
      'Tests copy a few objects and change one field; sharing shows only with a particular change on a particular object.',
      ['specfile.py', 'spec_parser.py', 'sections.py', 'tags.py', 'macro_definitions.py', 'prep.py', 'options.py', 'changelog.py', 'sourcelist.py', 'utils.py'], [('__deepcopy__, copy() and defensive copies in constructors', 'specfile/*.py')],
      'abstract interpretation of copies with comparison of both texts after each change (aliasing analysis)', ENGINE + 'One change per copy.'),
    P('C16', 'Failures of RPM surface as one exception with its messages',
      'When RPM fails to parse a spec file or to expand an expression, loading, reading anything that needs the parse and every expansion raise the RPM exception of the library carrying exactly the '
      'messages RPM printed during the failed call (its text being the first error), never another error, as often as asked; if RPM does not fail, nothing is raised. With forced parsing a failed first parse is '
      'tolerated only if a later parse succeeds. While RPM cannot parse or expand, the structured views can still be opened and read.',
      ['inputs', 'fault_sequences', 'histories'], 'every combination of outcomes of the RPM calls of loading and of every query, over contents that trigger each recovery step',
      'Tests make RPM fail in two or three places; recovery runs only after a failure, over arbitrary broken content.',
      ['spec_parser.py', 'macros.py', 'exceptions.py', 'conditions.py', 'sections.py', 'specfile.py'], [('_do_parse / parse', 'specfile/spec_parser.py'), ('Macros.expand', 'specfile/macros.py'), ('RPMException', 'specfile/exceptions.py')],
      'abstract interpretation with partitioned outcomes of every librpm call (exception-flow analysis)', ENGINE + 'Contents from a finite list; librpm fails only in the ways the bindings document.'),
    P('C19', 'An automatically managed release or changelog is left alone',
      'A release using %autorelease is never changed by bumping, and a changelog section using %autochangelog never gets an entry, in whatever form the macro is written, while a mention '
      'in a comment, an escaped macro or a longer name does not count. Otherwise bumping the release changes exactly one line by incrementing one number (of the active release macro '
      'definition, else of the release) or appending .1, and setting the release keeps the dist macro.',
      ['inputs'], 'every syntactic form of the two macros, combinations of two changelog sections, release macros and release shapes',
      'Tests use the two plain spellings; brackets, conditionals, comments, several sections and disabled definitions combine.',
      ['specfile.py', 'value_parser.py'], [('has_autorelease / contains_autochangelog / bump_release', 'specfile/specfile.py')],
      'abstract interpretation over syntactic forms with an exact reference result', ENGINE + 'Forms from a finite list.'),
    P('C22', 'Setting or removing an option is read back and affects nothing else',
      'Setting an option of a %prep macro or section to a value, or removing it, is what reading the rendered line again gives, whatever the quoting and position of the option, and '
      'every other option and positional argument keeps its value. The positional arguments behave as a list under the same rule.',
      ['inputs', 'histories'], 'all strings of up to two (reading: three) options and positional arguments in every notation, all operations and value shapes',
      'Tests edit one or two strings; notation, order, quoting and absent arguments multiply.',
      ['options.py', 'prep.py', 'sections.py'], [('Options.__setattr__ / __delattr__ / _find_option, Positionals', 'specfile/options.py')],
      'abstract interpretation of edits followed by re-tokenizing', ENGINE + 'Each option occurs once; values are non-empty, do not start with a dash and have no backslash or percent sign.'),
    P('C17', 'Names always refer to the same item, for every way of using them',
      'Looking up a tag, section, macro definition or %prep macro by name (attribute, get, find, membership) refers to the first valid item of that name, or else the first one; the case of tag and section names does '
      'not matter, that of macro names and of section options does. Assigning or deleting by name, also through the attributes of the spec file for the common tags, changes exactly that item; a missing one is refused (or read as None).',
      ['inputs'], 'all combinations of equal, differently spelled and similar names, validity and positions of up to three items, every operation',
      'Tests look up one or two names in fixed spec files; duplicates, spelling and validity combine.',
      ['tags.py', 'sections.py', 'macro_definitions.py', 'prep.py', 'specfile.py'], [('find / __contains__ / __getattr__ / __setattr__ / __delattr__', 'specfile/tags.py, sections.py, macro_definitions.py, prep.py')],
      'abstract interpretation against a reference lookup rule', ENGINE + 'Three items per container; names from a finite list.'),
    P('C25', 'Patch macros in %prep are numbered, added and removed consistently',
      'The number of a %patch macro is the one RPM uses in each notation (name suffix, -P, positional argument, none meaning 0); setting it changes only the number in that line and is read back. '
      'Adding a %patch macro adds one line with exactly the requested number and options next to the macro with the nearest number (after it unless that is higher), and removing one by number removes exactly the '
      'line of the first macro with that number or nothing.',
      ['inputs'], 'all notations, all arrangements of up to three macros, new numbers below, between and above, option combinations',
      'Tests use one %prep section; notation, order and gaps of the numbers combine.',
      ['prep.py', 'options.py'], [('PatchMacro.number / Prep.add_patch_macro / Prep.remove_patch_macro', 'specfile/prep.py')],
      'abstract interpretation against a reference reading of %patch macros', ENGINE + 'Literal numbers from a finite list; up to three macros.'),
    P('C20', 'Every word of the spec vocabulary is recognised, and nothing else is',
      'Every section, tag and %prep macro known to RPM, in any case RPM accepts, with any number, qualifier or option RPM accepts, is recognised and read with exactly its name, '
      'value, scope, flags, option values and content, and no similar word, escaped, indented or continued line, or line of a macro body is. Package labels accept '
      'exactly the architectures RPM knows, and exactly the sections that hold shell scripts are reported as scripts.',
      ['inputs'], 'every word of the vocabulary in four spellings with every kind of continuation, and near misses of each word',
      'Tests use the few most common tags and sections; a missing or extra word goes unnoticed until a spec file with it is edited in the wrong place.',
      ['constants.py', 'sections.py', 'tags.py', 'prep.py', 'macro_definitions.py', 'utils.py'],
      [('name tables', 'specfile/constants.py'), ('section start', 'specfile/sections.py parse'), ('tag name patterns', 'specfile/tags.py get_tag_name_regex')],
      'abstract interpretation against independently written vocabulary tables', ENGINE + 'One line of interest per text; the vocabulary is RPM 4.20.'),
    P('C23', 'Sources and patches behave as numbered lists',
      'After inserting, appending, replacing or removing sources or patches (by index, slice, location or number), re-reading the spec file gives the locations '
      'of a plain list after the same operation, with distinct increasing numbers if they were so before, and preceding numbers unchanged; other lines are kept. A source inserted with an '
      'explicit number has that number, a new one follows the numbering style of its neighbours or the requested default, and the first patch is added right after the last source.',
      ['inputs', 'histories'], 'all numbering styles (explicit, padded, implicit, mixed with source lists), all positions and operations',
      'Tests cover a few styles; the interplay of numbering style, position, width and lists is combinatorial.',
      ['sources.py', 'tags.py', 'sourcelist.py'], [('insert / insert_numbered / _deduplicate_tag_names', 'specfile/sources.py')],
      'abstract interpretation of list operations against a plain list', ENGINE + 'Up to three tags and two list entries.'),
    P('C24', 'Changelog entries are added on top, in style, and read back',
      'Adding a changelog entry puts exactly one entry, with the given or current date, author, e-mail and EVR, above the existing entries of every unmanaged changelog section and below any text '
      'before them, following the padding and timestamp style of the existing entries; no other line changes. Entries are read oldest first with their own lines, EVR, padding and timestamp '
      'style, and filtering returns the run of entries from the first not below the lower bound to the last not above the upper one.',
      ['inputs'], 'changelog shapes, dates, timestamp kinds, authors and EVRs; all sequences of up to three EVRs with all bounds',
      'Tests add entries to two or three changelogs with fixed dates and filter one list.',
      ['changelog.py', 'specfile.py'], [('add_changelog_entry', 'specfile/specfile.py'), ('ChangelogEntry.assemble, Changelog.parse, Changelog.filter', 'specfile/changelog.py')],
      'abstract interpretation against an independent formatter and EVR comparison', ENGINE + 'Dates from a finite list, current time fixed, at most three entries.'),
    P('C14', 'Active macros are reported exactly as RPM has them defined',
      'The list of active macros holds exactly the macros RPM has defined, in order, each with its own level, used mark, name, options, value (every line of it, or none) and validity, whatever the '
      'number of lines in the values. Two macros are equal exactly when all of these are, equal macros hash alike, and comparing a macro with anything else is not an error.',
      ['inputs'], 'every table of up to three macros from a vocabulary of names, options and bodies with free characters',
      'Tests parse one recorded table; empty bodies, several lines, options and unusual levels combine without bound.',
      ['macros.py'], [('Macros.dump / Macros._parse', 'specfile/macros.py')],
      'abstract interpretation of the table reader against an independently written table', ENGINE + 'Up to three macros; no line of a body looks like the first line of a macro.'),
    P('C21', 'Sources and patches describe exactly the line they come from',
      'The location, expanded location, file name (also the expanded one), remoteness, number, number of digits, comments and validity of every source and patch are those of its own tag or list entry, for file names, paths, URLs, '
      'URL fragments and macros. Changing the location or the comments through it changes exactly that line or the comment lines right above it, and counting, membership, iteration, slices and '
      'concatenation of sources agree with the plain list of locations.',
      ['inputs'], 'every location shape, tags and list entries, every attribute and sequence operation',
      'Tests check a few locations; the shapes of locations times the kinds of entries times the operations are not enumerated.',
      ['sources.py', 'sourcelist.py', 'tags.py', 'utils.py'], [('TagSource / ListSource', 'specfile/sources.py'), ('get_filename_from_location', 'specfile/utils.py')],
      'abstract interpretation against a reference derived from the location', ENGINE + 'Up to three tags and two list entries; locations from a finite vocabulary with free characters.'),
    P('C26', 'Comments of a tag or list entry behave as a list of texts',
      'The comments of a tag or source list entry read as the list of texts of the comment lines right above it. Appending, inserting, extending, replacing, deleting or clearing them, by index or slice, '
      'changes exactly the corresponding comment lines, keeps the prefix and indentation of the others, and touches no other line.',
      ['inputs', 'histories'], 'zero to three comment lines with free text and indentation, every list operation and index',
      'Tests append and insert a few comments; positions, prefixes and operations combine.',
      ['tags.py', 'sourcelist.py'], [('Comments', 'specfile/tags.py')],
      'abstract interpretation of list operations against a plain list of prefix and text', ENGINE + 'Up to three comments; slices are replaced by as many texts as they hold.'),
    P('C27', 'The author of a changelog entry is found in the documented order',
      'A changelog entry is added under the given author and e-mail; if no author is given, it is that of the first available of the RPM_PACKAGER environment variable, the %packager macro, and the '
      'name and e-mail configured in git, where the full name of the current user stands in for a missing name. Whatever the host lacks, finding none refuses the entry with a specfile exception and changes nothing.',
      ['inputs', 'configurations'], 'every combination of set, empty and missing variable, macro, git, git configuration, user and passwd entry',
      'Tests mock a few combinations of one host.',
      ['changelog.py', 'specfile.py'], [('guess_packager', 'specfile/changelog.py'), ('add_changelog_entry', 'specfile/specfile.py')],
      'abstract interpretation over every combination of host answers', ENGINE + 'git prints the value and a newline, or nothing if it is not configured.'),
    P('C28', 'Items and views are equal exactly when they say the same',
      'Two tags, comments, macro definitions, source list entries, changelog entries, %prep macros, sections, sources or parts of values, or two views of them, compare equal if they were read from the same text and unequal if '
      'their names, values, content, comments, separators or surroundings differ (a section: its content alone). Comparing with an object of any other kind gives unequal and never an error.',
      ['inputs'], 'all pairs of texts that differ in one part, from a vocabulary with free characters, for every kind of item and view',
      'Tests compare a few objects that are obviously equal or different.',
      ['tags.py', 'macro_definitions.py', 'sourcelist.py', 'changelog.py', 'prep.py', 'sections.py', 'sources.py', 'value_parser.py'], [('__eq__', 'specfile/*.py')],
      'abstract interpretation of comparisons over pairs that differ in one part', ENGINE + 'Sections compare by content alone; preceding blank lines of tags and the white space between options do not count.'),
    P('C29', 'The validity of conditional branches agrees with RPM for every expression',
      'For every expression in a condition, the branch considered valid is the one RPM itself would take.',
      ['inputs'], 'every expression RPM accepts', 'Tests evaluate a few expressions.', ['conditions.py', 'macros.py'],
      [('resolve_expression', 'specfile/conditions.py')], '', ''),
    P('C30', 'The numbers of sources equal those RPM assigns',
      'For every spec file RPM accepts, the number of every valid source and patch is the one RPM assigns to it.',
      ['inputs'], 'every spec file RPM accepts', 'Tests compare a few spec files.', ['sources.py'], [('_get_tags, _get_initial_tag_setup', 'specfile/sources.py')], '', ''),
    P('C31', 'A bumped release sorts above the previous one',
      'After bumping the release, RPM considers the expanded EVR of the package newer than before.',
      ['inputs'], 'every release value and definition of the macros in it', 'Tests bump a few releases.', ['specfile.py'], [('bump_release', 'specfile/specfile.py')], '', ''),
    P('C32', 'Spec files used from several threads do not affect each other',
      'Using several spec files from several threads gives each the results it would have on its own.',
      ['schedules'], 'every interleaving', 'Tests are single-threaded.', ['spec_parser.py', 'macros.py', 'context_management.py'], [('SpecParser.parse', 'specfile/spec_parser.py')], '', ''),
]

NA = {
    'C29': 'the outcome is that of the expression evaluator inside librpm (C code outside this repository); which branch follows from a given outcome is decided in C11.',
    'C30': 'depends on how librpm expands macros and numbers implicit tags of arbitrary spec files at run time; numbering against the documented rules is decided in C12 and C23.',
    'C31': 'the order depends on the run-time expansion of macros (for example a macro that is reset elsewhere), which no static argument over this repository bounds; the textual effect of a bump is decided in C19.',
    'C32': 'librpm keeps one process-wide macro table and the library takes no lock, so the property does not hold by design; there is no code here an analysis could show to provide it.',
}

MUT = ('Automatic mutation: 262 of 1583 mutants (operators, constants, removed statements, swapped arguments) that pass the tests were sampled; 132 were reported within a cap of '
       '40 s per check, and a reading of the rest found equivalent changes, changes of messages, or behaviour no property is about. Hand-written mutation, made from the statements '
       'alone: about 100 changes in four batches. Every batch had misses (8 of 23, 6 of 30, 13 of 40, 3 of 7); the scenarios that were missing were added and the mutants are caught now, '
       'except for those that turned out to be equivalent or to break nothing that is stated. Two of the misses led to genuine defects, which were repaired (see known_findings.txt).\n\n'
       'A violation found with free characters is reported only if it reappears for concrete ones, so a scenario that works with free characters only could never report anything: '
       'selftest/replay.py replays decided paths with concrete characters and compares the verdicts. It found two such scenarios (C21, C23), which were repaired.')
QUIET = ('All checks were run against behaviour-preserving changes: three automatic rewrites of the whole package (renamed locals and reordered independent statements; comprehensions and '
         'conditional expressions turned into loops and branches; bodies moved to helpers) and four batches in which about 90 functions were rewritten by hand (early returns, extracted helpers and '
         'classes, other data structures, other library functions for the same job). All 28 stay quiet; the one false alarm (iterating over a temporary file was modelled wrongly) was corrected in the model. '
         'Constructs outside the model make a path undecided, which is counted in the evidence and never reported as a violation.')
