from checks import report, compat, intro, determ, order, persist, panics, errors, c01, c03, c05, cli, defn, hist

TECH = 'static analysis: '
MIR = ('Each anchored function is analysed from the MIR of the current tree by a disjunctive abstract interpreter (provenance dataflow: results are '
       'expressed as access paths of the inputs under finite branch conditions; loops are summarised over one generic element; std calls have models). ')

CMD = ('Every command function is analysed from the MIR of the current tree into its outcomes: for each path, the branch conditions, the result and the ordered tree of external effects '
       '(database statements, file operations) with the provenance of every argument; loops become one generic iteration. ')
CNOTE = 'Decides the property for every input at the level of the effect summaries; trusts rustc MIR, the std and driver models (postgres, serde_yaml, std::fs) and the per-iteration loop summaries.'

DEF = ('The functions that read and write definitions are analysed from the MIR of the current tree by a disjunctive abstract interpreter; texts are known in part '
       '(literal pieces, unknown trimmed names, case and white space facts), children are node trees with unknown contents. ')
DNOTE = 'Decides the property for every content of the attributes; trusts rustc MIR, the std and serde_yaml models, and per-iteration loop summaries.'

CHECKS = {
    'C01': dict(
        fn=c01.run_attrs,
        technique='provenance dataflow summary of the differ, evaluated over all attribute-difference valuations',
        explanation=MIR + 'The summary of compare_diff is evaluated under every valuation of "attribute a differs" for each object kind (optional attributes: absent/present); '
        'the resulting change list, ordered by its sort key, is interpreted with the documented effects of the changes and must turn the first snapshot into the second.',
        rule='for each object kind and each subset of its attributes: effects(staged changes) . S = T, only the differing object touched, empty when equal',
        note='Decides the property for every pair of snapshots up to the abstraction: per-element loop summaries, equality atoms per attribute. Trusts rustc MIR, the std models and the table of documented change effects (C03 checks the code against the same table).'),
    'C02': dict(
        fn=c01.run_objects,
        technique='provenance dataflow summary of the differ, evaluated over all presence and kind valuations',
        explanation=MIR + 'The summary of compare_diff is evaluated under every presence/kind valuation (object added, removed, alone or with its containers, same name but other kind, unchanged).',
        rule='for each object kind and each presence/kind scenario: effects(staged changes) . S = T, only affected objects touched, no duplicates',
        note='As C01.'),
    'C03': dict(
        fn=c03.run_apply,
        technique='effect summary of Change::apply per variant compared with the documented effect',
        explanation=MIR + 'The effects (insert/remove/set on canonical snapshot places) of every path of Change::apply are compared with the documented effect of the change kind, and the path conditions with its precondition.',
        rule='for each change kind: applicable => Ok with exactly the documented effect; not applicable => Err',
        note='Decides the property for all change contents and snapshots up to the container models (BTreeMap/HashMap/Vec).'),
    'C04': dict(
        fn=c03.run_revert,
        technique='summary of Change::revert per variant composed with the effect of the change in an abstract store',
        explanation=MIR + 'For each path of Change::revert consistent with an applicable state, the documented effects of the change and of its reverse are composed in an abstract store, which must equal the initial one.',
        rule='for each change kind: effects(reverse) . effects(change) = identity on the places touched',
        note='Uses the table of documented effects that C03 checks against the code. Column order is not part of the property.'),
    'C05': dict(
        fn=c05.run_sql,
        technique='provenance of rendered SQL text, lexed and parsed with a grammar of the DDL statements, compared with the documented effect',
        explanation=MIR + 'Change::render_sql yields, per change kind and branch, a template of constant text and holes (fields of the change). Each template is tokenised '
        'with quote tracking, parsed with a small grammar of the PostgreSQL DDL statements involved into effects on schema places, and these are compared with the documented effect of the change.',
        rule='for each change kind and path: template is one well-formed statement and effects(statement) = documented effect (same names, every attribute, right polarity)',
        note='Trusts the DDL grammar written from the PostgreSQL manual and that raw fragments (types, expressions, function bodies) are valid SQL. Sequence owners are not part of the change (known finding under C01/C02/C04).'),
    'C06': dict(
        fn=c05.run_quoting,
        technique='taint-style quoting analysis of every SQL template (lexer with quote state over text and holes)',
        explanation=MIR + 'Every SQL text of the program (rendered changes; every statement handed to the database driver by any command) is tokenised with quote state. '
        'A hole inside quotes must be escaped for that quote; a hole outside quotes must be one of the attributes that are SQL fragments by definition.',
        rule='every hole of every SQL template: name => quoted with doubled quotes; literal => quoted with doubled quotes; raw => a declared SQL-fragment attribute; values otherwise only as parameters',
        note='Trusts the list of attributes that are SQL by definition (types, defaults, expressions, queries, methods, function argument lists, actions).'),
    'C07': dict(
        fn=defn.run_c07,
        technique='inverse-pair analysis: composition of the abstract summaries of every renderer and parser',
        explanation=DEF + 'For every kind of object, every outcome of its renderer is passed to its parser, for any values of its attributes; node trees are passed through the mapping renderer and reader, '
        'containers through theirs (with the inverse pairs of their parts as contracts), and the files through saving and loading.',
        rule='for every object, every path: parse(render(x)) = Ok(x) attribute by attribute; every node shape survives the mapping; each table and schema keeps every part; the file written is the file read',
        note=DNOTE + ' Assumes names that are not empty, have no surrounding white space and no dot; data types without = and != ; that serde_yaml reads back the value it wrote.'),
    'C08': dict(
        fn=defn.run_keys,
        technique='abstract interpretation of the parsers on documented shapes with unknown contents, against a table of attribute meanings',
        explanation=DEF + 'Each documented attribute, alone, in pairs and all together, is read with unknown contents; the object read must hold it in its own field and the documented default in every other one.',
        rule='attribute k given => field(k) = its value; not given => the PostgreSQL default; keywords in any letter case, names trimmed; A.B references another schema',
        note=DNOTE + ' The table of attributes and defaults is the oracle (PostgreSQL 16 documentation of CREATE TABLE/SEQUENCE/INDEX/FUNCTION).'),
    'C09': dict(
        fn=defn.run_malformed,
        technique='abstract interpretation of the parsers on arbitrary nodes: consumption of children and panic reachability',
        explanation=DEF + 'Every parser is run on nodes without a name, without each required attribute, with a text for children, and with one arbitrary further child; the mapping reader on arbitrary keys and values; '
        'the readers of tables and schemas on arbitrary children and on two of a kind.',
        rule='no outcome panics; an outcome that succeeds has used every child it was given with the type the attribute takes, and has compared the names of objects of a kind',
        note=DNOTE),
    'C10': dict(
        fn=cli.run_cli,
        technique='provenance dataflow summary of the dispatch and builder-flow analysis of the declared arguments over MIR',
        explanation=MIR + 'main is analysed from the point where the arguments are parsed; the commands are opaque. The declarations are the flow of clap Command and Arg builders over all functions reachable from main.',
        rule='for each name: exactly the command of that name, with its own --profile and --version; Err => message on stderr and non-zero exit; every declared command is dispatched and has its arguments with their defaults',
        note='Decides the property for all command lines, given clap parses arguments as declared. Trusts rustc MIR and clap.'),
    'C12': dict(
        fn=hist.run_transaction,
        technique='typestate of connection and transaction over the effect trees of all commands',
        explanation=CMD + 'Each effect tree is checked against the protocol connect; transaction; statements; commit.',
        rule='for each command outcome: one connection to the profile, one transaction, all writes in it, commit last and once iff everything succeeded, never in a loop',
        note=CNOTE + ' Transactional behaviour of the server (DDL rollback) is trusted.'),
    'C13': dict(
        fn=hist.run_migrations,
        technique='effect-tree provenance of up and down compared with the documented migration protocol; bookkeeping SQL parsed',
        explanation=CMD + 'The statements sent by up and down are parsed (bookkeeping SQL) or traced to their source (recorded statements) and matched with the protocol.',
        rule='up: per version of the range in order: its up statements in order, then its row; down: per row after the target, newest first: its down statements in order, then its row deleted; initialisation iff absent',
        note=CNOTE),
    'C14': dict(
        fn=hist.run_stage,
        technique='provenance of every field of the version file that stage writes',
        explanation=CMD + 'The value serialised into the stage file is traced back to the old stage, the history and the definitions.',
        rule='changes = old ++ D; up = old ++ map(sql, D); down = reverse(map(sql . revert(state before), D)) ++ old, with D = compare_diff(state after history, definitions)',
        note=CNOTE + ' Correctness of compare_diff, revert and render_sql is C01-C06.'),
    'C15': dict(
        fn=hist.run_make,
        technique='provenance of the version files that make and reset write, in the order of their writes',
        explanation=CMD + 'File operations are replayed abstractly; the values serialised into the version and stage files are traced to the old stage.',
        rule='make: new version = stage under a fresh name, saved before the stage is replaced by an empty one after it; reset: stage with empty lists',
        note=CNOTE + ' That nobody else writes into the history between the look at the file and its creation is not decided.'),
    'C16': dict(
        fn=hist.run_chain,
        technique='loop summaries of the chain walks compared with the documented traversal',
        explanation=CMD + 'get_upward_range and from_dir are summarised with loop variables as inductive values; initial value, step, exit conditions and results are compared with the traversal.',
        rule='walk: cur0 = newer end, step cur -> previous(cur), each step adds cur, exits at the older end, result reversed; every .yaml file linked under its previous; duplicates, cycles and gaps are errors',
        note=CNOTE),
    'C17': dict(
        fn=hist.run_effects,
        technique='effect analysis: effect trees of the commands and call-graph reachability of external effects',
        explanation=CMD + 'Every effect of every outcome is compared with the table of allowed effects of the command; functions of the pure core may reach no external effect in the call graph.',
        rule='for each command: every file and database effect is one of the allowed ones with an allowed path; pure functions reach no effectful external function',
        note=CNOTE + ' External functions are classified by a table; unknown ones count as effects.'),
    'C18': dict(
        fn=hist.run_errors,
        technique='unused-result / swallowed-error dataflow lint over MIR and panic reachability in the command summaries',
        explanation=CMD + 'A dataflow lint visits every call returning Result in every function reachable from main; the command summaries are searched for successful outcomes with a failed step and for panics.',
        rule='no Result dropped, stripped of its error or matched Err without returning an error (documented exceptions: init, status, main); no outcome succeeds with a failed call; no outcome panics',
        note=CNOTE + ' Panics inside opaque helpers (definition parsing) are covered by C09 where claimed.'),
    'C19': dict(
        fn=hist.run_profile,
        technique='provenance of the project settings from configuration to use',
        explanation=CMD + 'Discovery, loading, expansion and selection of profiles are summarised and compared with the documented rules; every command is checked to use the settings of its profile argument.',
        rule='discover: nearest ancestor; load: each field expanded from its own key, paths joined to the base; use: directories, database and schema of the selected profile in every command',
        note=CNOTE + ' The regular expression for variable references is trusted.'),
    'C24': dict(
        fn=hist.run_atomic,
        technique='typestate of files (written, synced, renamed) over the effect trees of all commands, with a cut at every effect',
        explanation=CMD + 'The file operations of each outcome are replayed and cut off after each one; at no cut may a file that from_dir reads be incomplete.',
        rule='at every cut of every outcome: a loadable file is unchanged, or was renamed from a synced complete file of the same directory',
        note=CNOTE + ' Atomicity of rename(2) is trusted. The two saves of make are separate (see C15).'),
    'C25': dict(
        fn=hist.run_init,
        technique='effect-tree provenance of init compared with the documented project layout',
        explanation=CMD + 'All outcomes of init are compared with the required layout and the constant texts it writes are parsed.',
        rule='existing or unreadable project => no effect; success => config, directories, first version, stage and definitions written with consistent content',
        note=CNOTE),
    'C26': dict(
        fn=defn.run_complete,
        technique='abstract interpretation of loading on files and directories of unknown contents, with conservation of objects',
        explanation=DEF + 'Loading is run on a file with three schemas and on a directory tree, each of unknown names and with one unknown relation and function per schema; file system calls may fail at every point.',
        rule='success => every entry was looked at, every yaml file read once, every object of every schema is in the result under its schema and nothing else; refused only for a failed step or a name used twice',
        note=DNOTE + ' Bounded to three schemas per file and to directories two levels deep (entries, contents and names unbounded).'),
    'C22': dict(
        fn=order.run_order,
        technique='provenance dataflow over MIR: the position and the sort key of every staged change in the summary of compare_diff',
        explanation='The disjunctive summary of compare_diff gives the list of changes it returns as a sorted concatenation over all pairs of snapshots; the sort key (or comparator) is evaluated abstractly for every kind of change. ',
        rule='for each of 132 pairs of change kinds where one must be executed before the other, every change of the first kind precedes every change of the second; the sort is stable',
        note='The table of pairs is the oracle: it is written from what PostgreSQL refuses (dependents are dropped first and created last, a name is free before it is taken). Two changes of the same kind (a view on a view, a function on a function) are not ordered: that would need their SQL.'),
    'C20': dict(
        fn=intro.run_introspection,
        technique='abstract interpretation of introspection over unknown rows, and a canonical form of the embedded catalog queries',
        explanation='introspect is run by the MIR abstract interpreter with two unknown rows for each of the SELECT statements it embeds; a cell of a row stands for the expression it selects. The statements are parsed '
        'and brought to a canonical form, where aliases are replaced by reference paths from the catalog row they are about (e.g. conrelid.relname). ',
        rule='every attribute of every object comes from the catalog expression the documentation of the catalog gives for it, from the same row; rows are neither lost, repeated nor of another kind; column data types are right for every '
        'class of pg_type row; every cell is read as a Rust type that accepts its type and its NULLs; introspection fails only if a query does',
        note='The oracle is a table of the PostgreSQL catalogs (types, NULLs, references, meaning of codes). Trusts the catalog functions (pg_get_expr, pg_get_viewdef, pg_get_indexdef). Privilege filters are accepted: an object the role may not '
        'use at all is not claimed. What the snapshot has no attribute for (function arguments, generated columns, partitioning) is not claimed.'),
    'C23': dict(
        fn=persist.run,
        technique='abstract interpretation of every (de)serialiser of the program: the emitted keys and values are fed to the reading side, which has to rebuild each field; column provenance for rows',
        explanation='For every type that is both written and read, the serialiser (generated or written by hand) is run by the MIR abstract interpreter on an unknown value, with the serde driver replaced by a recorder; for each way it can '
        'write the value, the recorded mapping is given to the visitor of the same type in both orders. For rows, the values of a version read with a transaction are traced to the columns they come from. ',
        rule='every field of the value that is read is the same field of the value that was written, every kind of change is read as itself with its own content, and what is written is always accepted; name, previous, changes, up and down '
        'of a version come from the column of that name of one row',
        note='Trusts serde_yaml and serde_json to return the mappings they were given, and PostgreSQL to return the cells it stored (changes as text of a JSON column).'),
    'C28': dict(
        fn=compat.run,
        technique='abstract interpretation of every deserialiser of the program over the mapping an earlier version recorded, against a committed description of the format; no solver, nothing executed',
        explanation='format.json describes what podo records: the keys of version files, rows and the project file, the kinds of changes and what belongs under each key. Every deserialiser is interpreted from its MIR with a mapping '
        'of that format that holds unknown values, with and without the keys that were optional; the names of the version table and of files are taken from the statements and paths the commands use. ',
        rule='such a mapping is always accepted; the value recorded under a key is read into the field that means it, as the type it was recorded as; every kind of change is read as itself; the version table, its columns, the names of '
        'version files, of the first version and the stage and of the project file are those existing projects have',
        note='The format is that of the pinned commit; adding optional keys, types or kinds is accepted. Trusts serde_yaml and serde_json to pass on the mappings. What old text (SQL of up and down) does is not claimed.'),
    'C29': dict(
        fn=report.run,
        technique='disjunctive abstract interpretation over MIR with the console as an effect: the text shown is traced to what was read, recorded and sent on the same path; no solver, nothing executed',
        explanation=CMD + 'What is printed is an event whose text has constant pieces and holes; loops over changes, versions and statements are summarised with their bodies. On every successful outcome (and the failing ones of make) what '
        'is shown is compared with the other effects of the outcome. ',
        rule='the database version or why it is unknown, the staged changes, the changes between the stage and the definitions, the statements run and the names of versions are each shown exactly once and in order, nothing else is shown in '
        'their place, headings are not exchanged, and messages that nothing is left appear only if so; make names the version only once it is saved',
        note=CNOTE + ' Wording is free except for a few words (staged, not staged, no changes, nothing) that are read as they are meant. Colour and layout are not considered.'),
    'C21': dict(
        fn=determ.run,
        technique='relational abstract interpretation: the functions around every source of arbitrary order are analysed for both orders of two unknown elements and compared; call-graph effect analysis for clock and chance',
        explanation='Iterations of hash tables and directory listings are found over the call graph from main. The function around each is analysed by the MIR abstract interpreter twice, with two unknown elements (and one '
        'directory below) in either order; when it only passes the order on, its callers are. Outcomes are compared up to what carries no order. ',
        rule='what is returned, written or sent on success is the same in both orders; profiles are only looked up by name; the clock is read by make only, where it reaches nothing but the name of the new version; no random numbers, '
        'process or thread identities, whole environments or threads anywhere',
        note='Which of several errors is reported may depend on the order. Lists of three or more are covered by pairwise exchange only if the function treats all elements alike.'),
    'C27': dict(
        fn=panics.run,
        technique='panic reachability by disjunctive abstract interpretation of MIR, function by function: what a function needs in order not to panic is an obligation of its callers; no solver, nothing executed',
        explanation='Every place that can panic (unwrap, expect, assertions, indexing, slicing, removal by position) in a function reachable from main is found in MIR. The function around each is interpreted with unknown '
        'arguments; the conditions under which a panic remains are carried to the callers, up to the commands. Regular expressions given as literals are parsed for well-formedness and for groups that take part in every match. ',
        rule='no condition under which a place panics is left at a command, and every place was reached by the analysis',
        note='main and command-line arguments: C10. Columns of database rows: C20, C23. Arithmetic overflow, stack depth, memory, a closed standard output and panics inside libraries are not considered.'),
    'C11': dict(
        fn=errors.run,
        technique='provenance dataflow over MIR: attributes of every error are traced into the text shown, and error values back to the lookup or attribute that failed; no solver, nothing executed',
        explanation='Every Display implementation of an error type is interpreted for each variant. Every error in which applying a change, reading a malformed definition or reading the history can end is collected by the '
        'disjunctive abstract interpreter with the conditions under which it arises, and what it names is compared with what those conditions are about. ',
        rule='showing an error never panics or fails, its text contains every attribute of the error and differs between variants; the object path, kind, attribute, version or profile an error names is the one the failing test was about',
        note='Wording beyond the named parts is free. Errors of libraries are passed on as they are. The file a definition error comes from is not named by podo and not claimed.'),
}
