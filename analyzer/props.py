"""the properties, as written to ../properties.jsonl"""


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': list(files), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = list(observe)
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    return d


PROPS = [
    P('C01', 'Staging turns every attribute difference into changes that remove it',
      'For any two database snapshots, executing the staged change list on the first makes every attribute of every object that exists in both '
      '(columns, keys, foreign keys, uniques, checks, views, indexes, sequences, functions) equal to the second. '
      'Nothing is staged for an object whose attributes are all equal, and nothing but the differing object is touched. '
      'A column that exists on both sides is altered in place and never dropped and re-created.',
      ['inputs'], 'all pairs of snapshots; every subset of differing attributes of every object kind',
      'The tests compare a handful of hand-written snapshot pairs, one attribute at a time; a forgotten attribute of one object kind is invisible to them.',
      ['src/snapshot/diff.rs', 'src/snapshot/changes/', 'src/snapshot/types/'],
      [('attribute comparison per object kind', 'src/snapshot/diff.rs diff_*_update'), ('change constructors', 'src/snapshot/changes/*/…::new')],
      ['result of compare_diff']),
    P('C02', 'Staging covers every object that was added, removed or changed kind',
      'For any two database snapshots, executing the staged change list on the first creates every schema, table, column, constraint, view, index, '
      'sequence and function that only the second has (with all its attributes), removes every one that only the first has, and replaces every one '
      'that has the same name but another kind. No other object is touched, no change is staged twice, and identical snapshots stage nothing.',
      ['inputs'], 'all pairs of snapshots; every object kind, added or removed alone or together with its containers, and every change of kind',
      'The tests use single-object snapshots for some kinds only; nested additions, removals with their containers and kind changes are mostly not sampled.',
      ['src/snapshot/diff.rs', 'src/snapshot/changes/', 'src/snapshot/types/'],
      [('create / update / drop dispatch per level', 'src/snapshot/diff.rs'), ('change constructors', 'src/snapshot/changes/*/…::new')],
      ['result of compare_diff']),
    P('C03', 'Applying a change to a snapshot does exactly what the change describes',
      'Applying a change to a snapshot succeeds whenever the object it names is absent (creation) or present with the right kind (removal, alteration, '
      'rename) and its containers exist, and then creates, removes, renames or alters exactly that object with exactly the described attributes. '
      'When the object to create exists already, or the object to change or its container is missing, applying fails with an error. '
      'No other object or attribute of the snapshot changes.',
      ['inputs', 'histories'], 'all change kinds, all change contents, all snapshots',
      'Each test applies one change with one set of literal values to one tiny snapshot; swapped, dropped or constant attributes with equal sample values pass.',
      ['src/snapshot/changes/', 'src/snapshot/types/'],
      [('apply of each change kind', 'src/snapshot/changes/*/*_change.rs'), ('container operations', 'src/snapshot/types/{database,schema,table}.rs')],
      ['snapshot after Change::apply']),
    P('C04', 'Reverting a change restores exactly the state it was taken from',
      'For any snapshot and any change applicable to it, the reverse computed from that snapshot exists, is itself applicable after the change, '
      'and undoes it: the changed object is back with every attribute it had, and nothing else differs (column order aside; what a dropped schema or '
      'table contained is restored by the reverses of the changes that removed it).',
      ['inputs', 'histories'], 'all change kinds, all change contents, all snapshots the change applies to',
      'The existing tests compare a few reverses literally and never compose a change with its reverse over arbitrary prior states.',
      ['src/snapshot/changes/'],
      [('revert of each change kind', 'src/snapshot/changes/*/*_change.rs')],
      ['Change::revert followed by Change::apply']),
    P('C05', 'The SQL of each change is one statement that performs exactly that change',
      'For every change of every kind, the rendered SQL is one well-formed PostgreSQL statement that creates, drops, renames or alters exactly the '
      'object the change names (schema, table, column, constraint, index, sequence, view, function) and states every attribute of the change with its '
      'recorded value: column lists in order, types, NOT NULL and DEFAULT, foreign-key target, match and actions, deferrability, uniqueness and method '
      'of indexes, sequence options, function properties. No IF EXISTS, CASCADE or other clause that does less or more.',
      ['inputs'], 'all changes of all kinds, all attribute values and combinations of optional attributes',
      'No test renders SQL at all, let alone runs it; the wrong clause for one flag combination of one change kind stays unnoticed until a database rejects or misapplies it.',
      ['src/snapshot/changes/', 'src/util/sqlfmt.rs'],
      [('SQL rendering per change kind', 'src/snapshot/changes/*/*_change.rs render_sql'), ('quoting and list helpers', 'src/util/sqlfmt.rs')],
      ['Change::render_sql', 'up and down of a version']),
    P('C06', 'Names and values never escape their quotes in generated SQL',
      'In every SQL text the program produces or sends, names of schemas, tables, columns, constraints, indexes, sequences, views and functions are double-quoted '
      'with embedded double quotes doubled, string values are single-quoted with embedded single quotes doubled or passed as parameters, and only attributes '
      'that are SQL by definition (types, defaults, expressions, queries, referential actions, index methods and keys, function signatures) are inserted as they are.',
      ['inputs'], 'all names and values, including ones with quotes, upper case, spaces and keywords',
      'Tests use plain lower-case names; quoting errors only show for names that need it.',
      ['src/util/sqlfmt.rs', 'src/snapshot/changes/', 'src/history/dbh.rs', 'src/introspection/'],
      [('quoting helpers', 'src/util/sqlfmt.rs'), ('history SQL', 'src/history/dbh.rs format_*_sql')],
      ['Change::render_sql', 'statements sent by up, down, status, clone']),
    P('C07', 'A definition that is written and read again is the same definition',
      'For every schema, rendering it as a definition and loading that definition gives the same schema: every object, every attribute, whatever characters names, '
      'types, defaults, expressions and function bodies contain. The stage therefore stays empty when nothing was edited, and clone and init produce definitions that mean what was introspected.',
      ['inputs'], 'all schemas; every combination of attributes; all characters',
      'The tests render and parse a few samples; a missing or swapped attribute, an unanchored keyword or an unescaped character only shows for the particular object that has it.',
      ['src/definition/'],
      [('renderers and parsers', 'src/definition/{column,constraint,function,index,schema,sequence,table,view}'), ('keys and values', 'src/definition/base/yaml.rs')],
      ['a definition saved by clone, init, reset and loaded by stage']),
    P('C08', 'Every documented attribute of a definition means what it says',
      'Each attribute of each kind of object sets its own field to the given value, wherever it appears and in any letter case; an attribute that is not given has the '
      'default that PostgreSQL documents (nullability, deferrability, match, update and delete actions, sequence bounds for ascending and descending sequences of each type, index method and ordering, function language and so on).',
      ['inputs'], 'all kinds of objects, all attributes, alone and together, all contents',
      'Few combinations are sampled by tests; a wrong default or an attribute read into a neighbouring field shows only with that attribute.',
      ['src/definition/'],
      [('parsers', 'src/definition/'), ('keywords', 'src/definition/base/yaml.rs')],
      ['the schema loaded from a definition']),
    P('C09', 'A malformed definition is refused with an error',
      'A definition with an unknown keyword, an attribute an object does not have, a value of the wrong type, a missing name or required attribute, or two objects of the '
      'same name and kind in one container is refused with an error: nothing is passed over silently and nothing panics.',
      ['inputs'], 'all node trees: any keyword, any child, any value type',
      'Tests load correct definitions only; each malformed shape takes its own path.',
      ['src/definition/'],
      [('parsers', 'src/definition/'), ('keywords and values', 'src/definition/base/yaml.rs')],
      ['outcome of stage on a malformed definition']),
    P('C10', 'The command line runs the command that was named, and its exit status tells',
      'podo NAME runs the command NAME and no other: init, status, stage, reset, make, up, down, clone and sync each have their own, which gets the value of --profile '
      '(`database` when none is given) and, for make, up and down, the value of --version if one is given. The exit status is 0 exactly when the command succeeded; when it '
      'fails, its error is shown on standard error. Every command that is offered can be run; without a command, podo does not panic.',
      ['inputs'], 'all command lines and outcomes of the commands',
      'No test runs the binary; the dispatch table and the declarations of the arguments agree only by convention.',
      ['src/main.rs', 'src/cmd/'],
      [('dispatch', 'src/main.rs main'), ('declared arguments', 'src/main.rs Command::new')],
      ['exit status, standard error, command executed']),
    P('C12', 'A database command is one transaction: all of it is committed or nothing',
      'up and down send everything they write to the database of the profile (DDL and version rows) inside one transaction on one connection, which they commit '
      'once, as the last thing they do: whenever a version was applied, and never before every step has succeeded. When any step fails, the command fails and nothing is committed. '
      'Commands that only read never write or commit.',
      ['inputs', 'crash points', 'histories'], 'all histories, every step at which a database call or a file read can fail',
      'No test talks to a database; a commit inside the loop or an ignored failure only shows when a statement in the middle of several versions fails.',
      ['src/main.rs', 'src/cmd/', 'src/history/dbh.rs', 'src/psql/'],
      [('transaction handling', 'src/cmd/up.rs, src/cmd/down.rs'), ('statements of the metadata table', 'src/history/dbh.rs')],
      ['statements received by the database']),
    P('C13', 'up and down run the recorded statements in order and keep the version table true',
      'up runs, for every version made after the latest one in the database, oldest first, each of its up statements once and in order, and inserts a row with '
      'that name, predecessor, changes, up and down statements; the metadata schema and table are created exactly when they do not exist. down runs, for every '
      'version applied after the named one, newest first, each recorded down statement once and in order, and deletes exactly that row. '
      'down fails without effect when the named version is not in the database.',
      ['inputs', 'histories'], 'all histories and database states',
      'No test covers up or down; order and bookkeeping errors need several versions and a database to show.',
      ['src/cmd/up.rs', 'src/cmd/down.rs', 'src/history/'],
      [('loop over the versions', 'src/cmd/up.rs, src/cmd/down.rs'), ('metadata rows', 'src/history/dbh.rs')],
      ['statements received by the database', 'rows of podo_version']),
    P('C14', 'stage records exactly what leads from the recorded state to the definitions',
      'stage compares the state after all versions up to and including the staged one with the definitions of the profile, and appends the resulting changes to the '
      'staged ones. The recorded up statements are the staged ones followed by the SQL of each new change in order; the down statements are the SQL of the reverses of '
      'the new changes, each computed from the state right before its change, in reverse order, followed by the staged ones. Nothing else of the stage changes, and '
      'nothing is recorded when any step fails.',
      ['inputs', 'histories'], 'all histories, stages and definitions',
      'No test runs stage; wrong order or a reverse taken from the wrong state needs two dependent changes to show.',
      ['src/cmd/stage.rs', 'src/history/', 'src/snapshot/diff.rs'],
      [('assembly of the stage', 'src/cmd/stage.rs'), ('state after a version', 'src/history/fsh.rs')],
      ['history/stage.yaml after stage']),
    P('C15', 'make and reset move or clear the stage without losing a change',
      'make saves a new version that has exactly the changes, up and down statements and predecessor of the stage, under a name containing the time (and the label, if any), '
      'in the file of that name, and only then replaces the stage by an empty one that follows the new version. It never overwrites a version: when one of that name '
      'is there (made in the same second), make fails and changes nothing. It succeeds without making a version only if the stage is empty. '
      'reset empties changes, up and down of the stage and keeps its name and predecessor. When a step fails, the stage is still there.',
      ['inputs', 'histories', 'crash points'], 'all stages and labels, every step at which a file operation can fail',
      'No test runs make or reset.',
      ['src/cmd/make.rs', 'src/cmd/reset.rs', 'src/history/'],
      [('make', 'src/cmd/make.rs'), ('reset', 'src/cmd/reset.rs'), ('saving versions', 'src/history/fsh.rs')],
      ['history directory after make and reset']),
    P('C16', 'The history is one chain: every version is found, broken chains are reported',
      'Every version file of the history directory becomes part of the chain: it is linked after the version it names as previous; two versions after the same one are '
      'reported, and the latest version is the one the stage follows. The versions between two ends are found by following previous from the newer one; they come '
      'oldest first, without the older end and with the newer one, each exactly once; a chain that does not lead to the older end is reported as unreachable, '
      'one that returns to itself as cyclic.',
      ['inputs', 'histories'], 'all history directories and pairs of versions',
      'No test covers histories; missing, branching and cyclic chains only arise from several files edited by several people.',
      ['src/history/'],
      [('reading the directory', 'src/history/fsh.rs from_dir'), ('range of versions', 'src/history/ get_upward_range')],
      ['versions applied by up, shown by status']),
    P('C17', 'Each command touches only what it is documented to touch',
      'Commands write to the database only through up and down, to the stage file and the history directory only through stage, make, reset and init, to the definitions '
      'only through clone and init; status, and everything else, writes nothing. Files are created or replaced only at the documented places (project file, definition '
      'directory, history directory) and nothing is deleted. Comparing, changing and rendering snapshots uses no file, network, process or clock.',
      ['inputs'], 'all commands, arguments, projects and environments; every function reachable from them',
      'A test shows what happened, not what cannot happen; a stray write or delete on a rare path is never sampled.',
      ['src/cmd/', 'src/history/', 'src/definition/', 'src/snapshot/', 'src/introspection/', 'src/project/'],
      [('commands', 'src/cmd/'), ('pure core', 'src/snapshot/')],
      ['file system and database after a command']),
    P('C18', 'No failure is ignored and none becomes a panic',
      'When a step of a command fails (file, parse, database, missing version, change that does not apply), the command fails with an error; it never goes on, succeeds '
      'or panics. No Result in the program is dropped, and no error is replaced by a default value on the way.',
      ['inputs', 'crash points'], 'all commands, every call that can fail, every function reachable from main',
      'Tests exercise the successful paths; each failing call needs its own fault injection.',
      ['src/'],
      [('error propagation', 'src/cmd/, src/history/, src/definition/, src/introspection/'), ('exit status', 'src/main.rs')],
      ['exit status and error output of every command']),
    P('C19', 'Project discovery, profiles and variables are resolved exactly as written',
      'Commands use the .podo.yaml of the current directory or the nearest parent that has one; an unreadable one is an error, none at all is ProjectNotFound. '
      'Every profile of the file is available under its name, with each of its settings taken from its own entry; directories are relative to the project file; '
      'references to environment variables in all settings are replaced by the value (empty if undefined). Every command uses the settings of the selected profile only; an unknown profile is an error.',
      ['inputs'], 'all directory layouts, configurations, environments and profiles',
      'No test covers project discovery or profiles; mixing up two settings is invisible with the defaults.',
      ['src/project/mod.rs', 'src/util/expand.rs', 'src/cmd/'],
      [('discovery and loading', 'src/project/mod.rs'), ('variable expansion', 'src/util/expand.rs')],
      ['directories and database a command uses']),
    P('C24', 'A crash never leaves a truncated version file',
      'Every file of the history directory that is read as a version is replaced atomically: its complete new content is written to another file of the same directory, '
      'synchronised to disk and then renamed over it. No command writes such a file in place.',
      ['crash points'], 'every command, every crash point',
      'Tests never crash the process between two system calls.',
      ['src/history/', 'src/cmd/'],
      [('saving versions', 'src/history/fsh.rs')],
      ['history directory after a crash']),
    P('C25', 'init creates a complete project and never overwrites an existing one',
      'init writes nothing when the current directory or a parent already has a project, or looking for one fails. Otherwise it writes the project file with the default '
      'profile, creates the definition and history directories named in it, a first version without predecessor, an empty stage that follows it, and definitions that '
      'are the state after the first version.',
      ['inputs', 'crash points'], 'all directories and failures',
      'No test runs init; overwriting an existing project would only show where one exists.',
      ['src/cmd/init.rs', 'src/project/mod.rs', 'src/history/'],
      [('init', 'src/cmd/init.rs')],
      ['directory after init']),
    P('C26', 'Loading the definitions takes in every object of every file',
      'Loading a definitions directory reads every .yaml file in it and below, and the result has every object of every file; a schema that appears in several files or several '
      'times is merged, and the same object defined twice, or any file that cannot be read or parsed, is an error. No file and no object is lost on the way (it would be dropped from the database).',
      ['inputs', 'crash points'], 'all directory trees, all distributions of schemas and objects over files',
      'The tests load single definitions from strings; what is lost depends on how objects are distributed.',
      ['src/definition/mod.rs', 'src/snapshot/types/'],
      [('loading', 'src/definition/mod.rs'), ('merging', 'src/snapshot/types/')],
      ['the schema staged from a definitions directory']),
    P('C22', 'Staged changes are ordered so that each can be executed',
      'In the list of changes computed from two snapshots, whatever a change needs is provided by an earlier change: schemas are created before what is in them, tables before '
      'their columns, constraints, indexes and views, keys before the foreign keys on them, functions and sequences before the defaults, checks and views that use them; drops go the '
      'other way round; and an object is dropped before another takes its name. Changes of the same kind keep their order.',
      ['inputs'], 'all pairs of snapshots',
      'The order only matters for change sets that contain both of a pair of dependent changes; the unit tests diff single objects.',
      ['src/snapshot/diff.rs'],
      [('ordering', 'src/snapshot/diff.rs')],
      ['the order of the changes in stage.yaml', 'whether "up" fails half way on a valid change set']),
    P('C20', 'Introspection reads every object with the attributes it has',
      'The snapshot read from a database has every schema asked for, and every sequence, table, column, key, foreign key, check, index, view and function in it, exactly once and nothing else '
      '(no system or dropped columns, no indexes that belong to constraints). Every attribute comes from the catalog entry of that object: columns in the order of the table, key columns in the order of the key, data types with '
      'their modifiers, rules and options by their names. A value the catalog leaves NULL is no reason to panic, and functions a snapshot cannot tell apart (overloads) are refused rather than dropped. '
      'clone reads the schema public this way and saves all of what was read.',
      ['inputs'], 'all catalog contents',
      'The tests of introspection need a live server and sample one small object each.',
      ['src/introspection/'],
      [('introspection', 'src/introspection/')],
      ['the definitions "clone" writes', 'the schema a first "stage" compares with']),
    P('C23', 'What is recorded in version files and rows is read back unchanged',
      'A version that is written to a file of the history directory or to a row of the version table and read again is the same version: name, predecessor, every change with all its attributes and its kind, and all up and '
      'down statements in order. The same holds for what init writes to the project file. Nothing that is written is refused when it is read.',
      ['inputs', 'histories'], 'all versions, all changes of all kinds with all values of their attributes, all projects',
      'The tests never read a change back; a serde attribute on one field of one of 35 types is enough to lose it, for one value of the field only.',
      ['src/history/', 'src/snapshot/changes/', 'src/project/mod.rs'],
      [('representation of changes', 'src/snapshot/changes/mod.rs and the derives on each change'), ('rows', 'src/history/dbh.rs'), ('files', 'src/history/fsh.rs')],
      ['a second run of stage, up or down after make']),
    P('C28', 'Projects, histories and databases set up by earlier versions keep working',
      'What podo has recorded stays readable: a version file, a row of the version table or a project file in the format podo has written so far (keys, names of the kinds of changes, what each key holds) is accepted and read as what '
      'it was, every attribute in its place. Optional keys may be missing. Version files are found where they were written (<name>.yaml in the history directory, with "init" first and "stage" last), the project file under .podo.yaml, '
      'and the rows in the table "version" of the metadata schema with its columns.',
      ['histories', 'inputs'], 'all versions, all changes of all kinds, all projects in the recorded format',
      'The tests write and read with the same code; when a key is renamed on both sides they pass, and every project in use stops working or silently loses the attribute.',
      ['src/history/', 'src/snapshot/changes/', 'src/project/mod.rs'],
      [('keys', 'the serde derives of src/history/version.rs, src/snapshot/changes/, src/project/mod.rs'), ('table', 'src/history/dbh.rs'), ('files', 'src/history/fsh.rs, src/project/mod.rs')],
      ['all commands after podo is updated']),
    P('C29', 'What the commands show is what is the case',
      'status shows the version the database is at, or why it cannot be told; the SQL of exactly the changes recorded in the stage; the SQL of exactly the changes that lead from the staged state to the definitions, under a heading of '
      'their own; and says that there are no changes only if there is neither. stage shows the SQL of each change it records, up and down the version the database is at, the version they lead to and each statement they run, once, in '
      'order, under the version it belongs to, and none that they do not run. None of them says that there is nothing to do when there is. make shows the name of the version it made, and only once it is in the history.',
      ['inputs', 'histories'], 'all definitions, histories and databases; every outcome of every command',
      'No test looks at what a command prints; an exchanged list or a message in the wrong branch leads the user to make or apply the wrong thing.',
      ['src/cmd/'],
      [('status', 'src/cmd/status.rs'), ('stage', 'src/cmd/stage.rs'), ('migrations', 'src/cmd/up.rs, src/cmd/down.rs'), ('make', 'src/cmd/make.rs')],
      ['standard output of status, stage, make, up and down']),
    P('C21', 'The same inputs give the same changes, SQL, definitions and files',
      'Two runs of a command on the same definitions, history and database produce the same changes in the same order, the same up and down statements, the same definition files and the same version, whatever the hash '
      'seed of the process, the order in which the system lists a directory, the time or chance. Time only enters the name of the new version make creates. Which profile of several is used depends on its name only, not on '
      'their order.',
      ['inputs', 'schedules'], 'all hash orders, all listing orders, all inputs',
      'A test sees one hash order and one listing order per run; with one or two elements both are usually the sorted one.',
      ['src/project/differ/', 'src/snapshot/', 'src/history/', 'src/project/', 'src/cmd/'],
      [('ordered iteration', 'src/project/differ/ and the snapshot'), ('directory listings', 'src/project/mod.rs, src/history/fsh.rs'), ('version name', 'src/cmd/make.rs')],
      ['stage, diff and clone run twice', 'the version files a team shares']),
    P('C27', 'No input makes a command panic',
      'Whatever the definition files, version files, project file and database contain and whatever state they are in, every documented command ends with success or with an error that is shown; it never panics half-way. '
      '(`podo sync`, which is not implemented, is a known exception.)',
      ['inputs', 'histories'], 'all inputs of all commands, all places that can panic in code a command can reach',
      'There are some 75 places that can panic; each is safe only because of a check made somewhere else, often in another function, and a test that passes shows nothing about the inputs it does not use.',
      ['src/'],
      [('definitions', 'src/definition/'), ('differ', 'src/snapshot/diff.rs'), ('commands', 'src/cmd/'), ('project file', 'src/project/mod.rs, src/util/expand.rs')],
      ['any command on a malformed or unusual input']),
    P('C11', 'An error says which object, attribute, version or profile it is about',
      'Every error podo ends with can be shown, and its text contains everything the error carries. An error of applying a change names the full path and the kind of the object that is missing, already there or of another '
      'kind; an error in a definition names the object and the attribute that is missing or malformed; an error of the history names the versions concerned; an unknown profile is named; the cause of a failed operation of '
      'the system or the database is passed on.',
      ['inputs', 'histories'], 'all errors of all operations',
      'Tests compare results of success; of some 170 ways in which applying changes fails and 250 in which definitions are refused they look at a handful.',
      ['src/snapshot/error.rs', 'src/snapshot/types/', 'src/definition/ddl/', 'src/history/', 'src/project/mod.rs'],
      [('errors of snapshots', 'src/snapshot/error.rs, src/snapshot/types/'), ('errors of definitions', 'src/definition/ddl/error.rs and the parsers'), ('errors of histories', 'src/history/fsh.rs, src/history/dbh.rs')],
      ['what is written to standard error when a command fails']),
]

NOT_APPLICABLE = []
