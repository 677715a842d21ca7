#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = []


def P(id, title, statement, over, quant, tests, files, mechanism, observe, state=()):
    T.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over.split(), text=' '.join(quant.split())),
                  why_tests_cant=' '.join(tests.split()),
                  anchors=dict(files=['whatami/' + f for f in files.split()],
                               mechanism=[dict(name=n, where='whatami/' + w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where='whatami/' + w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


P('C01', 'Ids are canonical: equal configurations have one id, whatever their order',
  '''The id of a configuration depends only on its name, its output name and the values of its parameters: the insertion order of
  parameters, of the entries of dictionaries and of the elements of sets, at any nesting level, never changes it. Generating the
  id, the positional id or the string representation returns the same text every time and leaves the configuration, its values
  and its non-id keys as they were.''',
  'inputs', 'all configurations, all permutations of insertion orders, nested dictionaries, sets and configurations',
  'tests compare a few literals built in one order; every permutation at every level must give the same text',
  'what.py plugins.py', [('What.id sorts parameters', 'what.py'), ('dict_plugin and set_plugin sort entries', 'plugins.py')],
  ['What.id()', 'What.positional_id()', 'str(what)'])

P('C02', 'Non-id parameters never influence ids, id parameters always appear',
  '''A parameter declared as non-id never appears in the id nor in the positional id, and changing its value, adding or removing it
  never changes them; each of the other parameters appears exactly once. When non-id parameters are explicitly requested (also in
  the default string representation) all the parameters of the configuration appear, while nested configurations still
  contribute their plain id.''',
  'inputs configurations', 'all configurations and all sets of non-id keys, including keys not in the configuration and nested ones',
  'tests use one fixture with one non-id key',
  'what.py', [('What.id filters non_id_keys', 'what.py'), ('What.__init__ copies non_id_keys', 'what.py'),
              ('flatten filters non_id_keys', 'what.py')], ['What.id()', 'What.positional_id()', 'str(what)'])

P('C03', 'Every kind of value has its documented place and text in ids',
  '''The id of a configuration is its name followed by the parenthesised, comma separated `key=value` pairs in the order of the keys,
  preceded by `output=` exactly when it has an output name; the positional id has the same layout with only the top level values,
  in the same order. Numbers, booleans and None are written as Python writes them, lists, tuples, dictionaries (entries sorted by
  text), sets and frozensets (elements sorted by text, empty ones as `set()` and `frozenset()`) as Python-like literals without
  spaces, builtin numeric types as `int()`, nested configurations and whatable objects as their own id, and functions and partials
  as their name with their known parameters. Instances of subclasses of list, tuple, set and OrderedDict are written as
  `Class(seq=...)` so that they differ from the plain collections.''',
  'inputs', 'all names, output names, parameter dictionaries and nestings of the value kinds',
  'tests check some values of each kind; the layout must hold for every combination and nesting',
  'what.py plugins.py', [('What.id, What.positional_id', 'what.py'), ('one plugin per kind of value', 'plugins.py')],
  ['What.id()', 'What.positional_id()', 'WhatamiPluginManager.build_string()'])

P('C04', 'Over-long ids are replaced by the sha1 of the whole id, others are untouched',
  '''With a positive maximum length, an id (also a positional id) longer than it is replaced by the hexadecimal sha1 of the utf-8
  encoding of the complete id, and one that fits, including one of exactly that length, is returned unchanged. With a zero or
  negative maximum the id is never replaced.''',
  'inputs', 'all configurations, all maximum lengths, ids with any text',
  'tests check one length', 'what.py', [('What._trim_too_long', 'what.py')], ['What.id(maxlength=n)', 'What.positional_id(maxlength=n)'])

P('C05', 'Parsing an id recovers its configuration, so configurations never share ids',
  '''For configurations made of integers, floats, booleans, None, strings without quotes or backslashes, builtin classes, tuples, lists,
  sets, frozensets, dictionaries and nested configurations (with or without output name) parsing the id gives back a configuration with
  the same name, output name and parameters, with values of the same types. The id of the parsed configuration is the original id,
  so configurations that differ never share an id.''',
  'inputs', 'all configurations over the grammar of ids, any nesting and any parameter names (also those starting like a literal)',
  'round trip tests use a dozen fixed configurations',
  'parsers.py what.py plugins.py', [('build_whatami_parser: the grammar of ids', 'parsers.py'), ('WhatamiTreeVisitor: semantic actions', 'parsers.py'),
                                     ('plugins: the inverse', 'plugins.py')], ['parse_whatid(what.id())'])

P('C06', 'Strings are quoted once: any text without backslashes is one token in ids',
  '''A string parameter without backslashes is written between single quotes with each single quote of the text escaped exactly once, and
  a text whose quotes are already escaped is written identically, so escaping is never doubled. Parsing such an id never mistakes
  characters of the text (quotes, separators, brackets, leading or trailing white space, line breaks) for syntax: the value parsed is
  the text between the quotes, and its id is the original id.''',
  'inputs', 'all strings, in any position of a configuration',
  'tests check two or three quoted strings', 'plugins.py parsers.py',
  [('string_plugin', 'plugins.py'), ('a_string in both grammars', 'parsers.py'), ('visit_a_string', 'parsers.py')],
  ['What.id()', 'parse_whatid()'])

P('C07', 'Parsing is total on ids, rejects everything else and has no memory',
  '''Parsing consumes the whole text: text that is not an id, or an id with anything but white space before or after it, is rejected with an
  exception instead of giving a partial configuration. White space around tokens does not change the result. Every parse returns a new
  configuration that only depends on the text: changing a result or failing to parse some text never affects other results.''',
  'inputs histories', 'all texts (valid ids, their prefixes, extensions and mutations), all sequences of parses',
  'tests parse a handful of valid ids and two invalid ones', 'parsers.py',
  [('whatami_id_top ends with EOF', 'parsers.py'), ('parse_whatid', 'parsers.py')], ['parse_whatid()'])

P('C08', 'Flattened keys address their values; lookups never invent values',
  '''Flattening a configuration gives as many keys as values and each key retrieves its value from the configuration; keys are sorted by name
  with the keys of a nested configuration right after the key that contains it. Non-id parameters are included only on request, members of
  collections only on request, nested levels unless disabled, and keys() and values() are the two halves of the same answer. Looking up a
  key that is not in the configuration raises KeyError, and get returns its default, at any depth of nested configurations,
  collections and whatable objects.''',
  'inputs', 'all configurations, nestings and option combinations', 'tests flatten two configurations with default options',
  'what.py', [('What.flatten', 'what.py'), ('What.__getitem__, What.get', 'what.py')],
  ['What.flatten()', 'What.keys()', 'What.values()', 'what[key]', 'What.get()'])

P('C09', 'Copies and derived ids never modify the original configuration',
  '''A copy has the same name, output name, parameters and non-id keys as the original and shares neither its parameter dictionary nor its set
  of non-id keys (a deep copy shares no mutable value either), so changing one never changes the other. Setting a parameter changes only
  that parameter, in place or in a copy as requested, and returns the changed configuration. Adding values for a new key returns one
  id per value, in order, never modifies the configuration given and refuses keys that exist.''',
  'inputs histories', 'all configurations, all sequences of copies and modifications',
  'tests check one copy and one modification', 'what.py whatutils.py',
  [('What.copy', 'what.py'), ('What.set', 'what.py'), ('whatadd', 'whatutils.py')], ['What.copy()', 'What.set()', 'whatadd()'])

P('C10', 'Equality of configurations is name, output name and parameters',
  '''Two configurations are equal exactly when their names, output names and parameters are equal, at any nesting level; non-id declarations
  do not count. A configuration is never equal to an object that lacks any of these, and comparing never modifies anything.''',
  'inputs', 'all pairs of configurations and other objects', 'tests compare three pairs', 'what.py', [('What.__eq__', 'what.py')],
  ['what == other', 'what != other'])

P('C11', 'Introspected configurations contain exactly the requested visible attributes',
  '''The parameters inferred for an object are its instance attributes, slots, properties and class members, each group exactly when requested,
  with properties over slots over instance attributes over class members when names clash. From these are dropped exactly the names with the
  excluded prefix, the excluded postfix, or in the excluded names; an empty or missing prefix or postfix excludes nothing. The name is that of
  the class unless overridden, and introspecting does not modify the object.''',
  'inputs configurations', 'all objects and all combinations of options', 'tests check one class hierarchy with default exclusions',
  'misc.py what.py', [('config_dict_for_object', 'misc.py'), ('trim_dict', 'misc.py'), ('whatareyou', 'what.py')],
  ['whatareyou()', 'whatable(obj).what()', 'config_dict_for_object()', 'trim_dict()'])

P('C12', 'Parameters inferred for callables are the ones a call would use',
  '''The configuration of a function has its name and exactly its parameters with default values; that of a partial or curried function, at
  any nesting, has the name of the underlying function and exactly the parameters a call would find bound, with the bound values
  (keywords of outer partials over those of inner ones, over defaults; positional arguments from inner to outer bound to the first
  parameters). Bindings that cannot be right, and those that bind by position a parameter with a known value or no named parameter at all,
  are rejected with ValueError instead of being reported wrongly, and the callable is not modified.''',
  'programs inputs', 'all function signatures, all nestings of partials and curried functions, all bound values',
  'tests check a few partials with one or two levels', 'misc.py plugins.py what.py',
  [('callable2call', 'misc.py'), ('function_plugin, partial_plugin', 'plugins.py')],
  ['callable2call()', 'whatareyou(function)', 'ids with functions as values'])

P('C13', 'A whatable function behaves like the original function',
  '''Decorating a function or partial returns a callable that passes all its arguments to the original, returns what it returns (also raising
  what it raises), keeps its name and documentation and, unless asked to, leaves the original untouched. Its configuration has the
  parameters known for the original with the requested non-id keys, and each call to its what method returns an independent
  configuration. A custom what function is used instead when given.''',
  'programs inputs histories', 'all functions, arguments, decorator options and sequences of calls',
  'tests decorate a few functions and call them once', 'what.py', [('whatable', 'what.py')], ['whatable(function)', 'decorated()', 'decorated.what()'])

P('C14', 'Making objects whatable never overrides a foreign what member',
  '''An object is reported as whatable exactly when it has a what method that returns a configuration (for classes, one added by whatami);
  the check never raises. Making whatable an object or class that has an unrelated member named what is refused unless explicitly forced,
  in which case that member is only flagged, never replaced, and monkey-patching a class leaves an existing what member alone unless forced.
  Builtin functions are refused, and objects made whatable report their own attributes.''',
  'programs inputs', 'all objects and classes, with any member named what', 'tests check one class for each outcome',
  'what.py whatutils.py', [('is_whatable', 'what.py'), ('whatable', 'what.py'), ('whatamize_object', 'whatutils.py')],
  ['is_whatable()', 'whatable()', 'whatamize_object()'])

P('C15', 'Nicknames and ids are one to one in a registry, whatever is registered',
  '''After any sequence of registrations each nickname has one id and each id one nickname, and looking either up gives the other. A registration
  that would give a second nickname to an id or a second id to a nickname is rejected and changes nothing; registering the same pair again
  is accepted and changes nothing. A successful registration returns the registered object, lookups of unknown nicknames or ids return None (or
  the id itself where documented), and listing gives the sorted pairs.''',
  'histories inputs', 'all sequences of registrations, of objects given as ids, configurations or whatable objects', 'tests try a fixed sequence',
  'registry.py', [('WhatamiRegistry.register', 'registry.py')],
  ['WhatamiRegistry.register()', 'nick2id()', 'id2nick()', 'nick_or_id()', 'list()'],
  [('ids and nicknames', 'two dictionaries, inverse of each other', 'registry.py')])

P('C16', 'Removing from a registry removes exactly one complete pair or nothing',
  '''Removing by nickname, by object or by both removes that pair in both directions and nothing else, so that both can be registered again.
  When nothing is given, when the nickname or object is unknown, or when both are given and are not a registered pair, an exception is raised
  and the registry does not change. Reset removes every pair, and registries are independent of each other.''',
  'histories inputs', 'all sequences of registrations, removals (valid and invalid) and resets', 'tests remove two entries',
  'registry.py', [('WhatamiRegistry.remove', 'registry.py'), ('WhatamiRegistry.reset', 'registry.py')], ['WhatamiRegistry.remove()', 'reset()'])

P('C17', 'Adding records is all or nothing, and record ids are unique',
  '''An addition of one or many records either adds all of them, in order, after the existing ones, or raises and leaves the recorder as it was:
  whether a record is duplicated in the call, already in the recorder, conflicts with the id column or is rejected by a postprocessor, at any
  position. No two records ever have the same id, existing records are never replaced or modified, and the number of records is that of
  the successful additions. Curried and partial forms of addition behave like the direct call with the same arguments.''',
  'histories fault_sequences', 'all sequences of additions with failures at any record', 'tests check one duplicate',
  'registry.py', [('Recorder.add commits once at the end', 'registry.py')], ['Recorder.add()', 'Recorder.padd()', 'len(recorder)', 'Recorder.get()'],
  [('records', 'ordered dictionary {id: record}', 'registry.py')])

P('C18', 'Each record contains exactly the columns given for it',
  '''A record has its id in the id column, for each column given the value that corresponds to it (the same value for all, the value at the
  position of its id when iterables are unboxed and None when there is none, the value for its id when a dictionary is given and no
  column if it has none), and each default for the columns it lacks. Postprocessors are then applied in order, those of the recorder before
  those of the call unless overridden, each to the result of the previous, and the result of the last is the record stored and returned. Retrieval returns
  the stored records in the order requested, skipping unknown ids.''',
  'inputs histories', 'all ids, columns, defaults, unboxing options and postprocessor chains',
  'doctests add a dozen records', 'registry.py', [('Recorder.add', 'registry.py'), ('Recorder._params2dict', 'registry.py')],
  ['Recorder.add()', 'Recorder.get()', 'recorder[id]', 'Recorder.unique()', 'Recorder.to_df()'])

P('C19', 'The configuration of a recorder changes only through its methods',
  '''Adding defaults sets exactly the given columns, removing defaults removes exactly the given ones (ignoring unknown ones), adding postprocessors
  appends them in order and overriding replaces the chain. The defaults and postprocessors a recorder returns are copies, the collections it
  was created with are not shared with it, and changes affect neither records already added nor other recorders.''',
  'histories', 'all sequences of configuration changes and additions over several recorders',
  'doctests change the configuration twice', 'registry.py',
  [('add_column_defaults, remove_column_defaults', 'registry.py'), ('add_record_postprocessors, override_record_postprocessors', 'registry.py')],
  ['Recorder.column_defaults', 'Recorder.record_postprocessors()', 'Recorder.add()'])

P('C20', 'Plugins go exactly where requested, never twice, and reset restores defaults',
  '''Inserting a plugin puts it right before the requested plugin (by default before the two catch-all plugins, at the end if None is
  requested) and moves no other; dropping removes exactly that plugin. Inserting a plugin that is in the chain or before one that is not, and dropping
  one that is not, raise ValueError and leave the chain as it was. Resetting restores the default chain, which no operation ever changes, and
  chains obtained before an operation do not change.''',
  'histories', 'all sequences of insertions, removals and resets, of any callables', 'doctests try a dozen operations',
  'plugins.py', [('WhatamiPluginManager.insert, drop, reset', 'plugins.py')], ['WhatamiPluginManager.plugins()', 'insert()', 'drop()', 'reset()'],
  [('chain', 'tuple of plugins', 'plugins.py')])

P('C21', 'The first plugin that recognises a value decides its text',
  '''The text of a value is the result of the first plugin of the current chain that returns something other than None (even an empty
  text), whatever the plugins after it would return, and later plugins are not consulted. Ids use the current chain at every nesting
  level, so that inserting or dropping a plugin takes effect at once.''',
  'inputs histories', 'all chains, all values', 'tests insert one plugin', 'plugins.py', [('WhatamiPluginManager.build_string', 'plugins.py')],
  ['WhatamiPluginManager.build_string()', 'What.id()'])

P('C22', 'Sorting configurations and ids is stable and keeps values aligned',
  '''Sorting a list of configurations or ids by some keys returns the same elements (none lost, duplicated or changed) ordered by the tuple of
  their values for those keys, in the order of the keys, keeping the input order of those with equal values; the returned values are
  those of the element at the same position. The input list is not modified and elements themselves are never compared.''',
  'inputs', 'all lists of configurations and ids, all lists of keys, with ties', 'doctests sort five ids',
  'whatutils.py', [('sort_whats', 'whatutils.py'), ('sort_whatids', 'whatutils.py')], ['sort_whats()', 'sort_whatids()'])

P('C23', 'Matching a template selects exactly the ids that differ only in ignored keys',
  '''An id matches a template exactly when both have the same name, the same keys and the same values for all the keys that are not ignored,
  where ignoring a key also ignores the keys nested in it, and a nested configuration is compared by its name, its output name and its keys.
  The matching ids are returned in input order, as given, and the template always matches itself.''',
  'inputs', 'all lists of ids, templates, ignored keys and options', 'doctests match six ids against one template',
  'whatutils.py', [('match_whatids', 'whatutils.py')], ['match_whatids()'])

P('C24', 'Columns extracted from ids have the value of each row or None',
  '''Extracting columns adds to the dataframe, for each requested key (all the top level and nested keys found if none is requested), one column named after the
  key, with nested keys joined by underscores, between the given prefix and postfix, with the value of that key in the id of each row
  or None where the id lacks it. Other columns, the rows and their order do not change, and the dataframe given changes only when in place is requested.''',
  'inputs', 'all dataframes of ids, requested columns, prefixes and postfixes', 'tests use one dataframe',
  'whatutils.py', [('whatid2columns', 'whatutils.py')], ['whatid2columns()'])

P('C25', 'Conversions between objects, configurations, ids and dictionaries agree',
  '''The id of None is None, that of a string is the string itself, that of an object with a what method is the id of its configuration, that of an object with only an id
  method is its result and that of any other object (without members with those names) is the id of its inferred configuration. The configuration of a whatable object is its own
  unless inspection is forced. The dictionary of an id has its name, output name and parameters, with nested configurations
  converted too, and extracting values returns a tuple with the value of each requested key, in order.''',
  'inputs', 'all objects, ids and keys', 'tests check a few objects', 'whatutils.py what.py',
  [('what2id', 'whatutils.py'), ('obj2what', 'whatutils.py'), ('id2dict', 'whatutils.py'), ('whatvalues', 'whatutils.py'), ('What.to_dict', 'what.py')],
  ['what2id()', 'obj2what()', 'id2dict()', 'What.to_dict()', 'whatvalues()', 'mlexp_info_helper()'])

P('C26', 'Old style ids are translated without losing or inventing parameters',
  '''An old style id (`name#key=value#...`, nested ids between double quotes, optionally preceded by `out=name#`) is parsed into a configuration with
  that name and exactly those parameters and values, plus the parameter `out` when it is given at the front, and its new id is the id of that
  configuration. Giving `out` twice is rejected, and text that is not an old style id is returned unchanged by the conversion.''',
  'inputs', 'all old style ids over the value kinds of the old grammar, and other texts', 'doctests check three ids',
  'whatutils.py parsers.py', [('oldid2what, id2whatami4', 'whatutils.py'), ('build_oldwhatami_parser', 'parsers.py')],
  ['oldid2what()', 'id2whatami4()'])

P('C27', 'Call dictionaries contain the current value of each parameter of the call',
  '''The dictionary of a call has each named parameter of the calling function with its current value, the entries of its keyword
  arguments, and none of its other local variables; the named parameters to ignore are left out, explicit overrides replace or add entries and
  keyword overrides take precedence over them. Variable positional arguments, when there are any, raise ValueError unless they are ignored, and neither the caller nor the overrides are modified. The configuration of a call
  has the name of the caller and its local variables.''',
  'programs inputs', 'all signatures, calls, depths, ignores and overrides', 'doctests call four functions', 'misc.py whatutils.py',
  [('call_dict', 'misc.py'), ('call2what', 'whatutils.py')], ['call_dict()', 'call2what()'])

P('C28', 'Lazy imports give the first importable variant or fail only when used',
  '''Importing lazily returns the first of the given variants that can be imported, in order, or the named library when no variant is given; when none
  can be imported it does not fail, and any later use of the result raises ImportError with the library, the errors and the installation hint. Importing a member
  returns that member, and when its module cannot be imported raises ImportError or returns None as requested; a name without module is
  rejected. Importing submodules returns a dictionary with each importable module of the package under its full name (those of nested packages too unless only the direct ones are asked for), and raises the import error of any of them if errors are not to be ignored.''',
  'configurations inputs', 'all combinations of importable and missing modules and variants', 'tests check one missing module',
  'misc.py', [('maybe_import, maybe_import_member, import_submodules', 'misc.py')], ['maybe_import()', 'maybe_import_member()', 'import_submodules()'])

P('C29', 'Array hashes identify content, shape, type and layout, not identity or history',
  '''Arrays (alone or nested in collections and objects) with the same values, shape, data type, class and memory layout have the same hash,
  whatever the objects (in nestings in which no collection appears twice), the buffers or the order of entries of dictionaries and sets around them, and hashing any number of times
  gives the same result. Changing any element, the shape or the data type changes the hash, and hashing never modifies what is hashed. The id of an
  array is its class name with that hash.''',
  'inputs histories', 'all arrays and nestings', 'tests pin the hashes of seven arrays', 'minijoblib/hashing.py plugins.py',
  [('hasher, Hasher, NumpyHasher', 'minijoblib/hashing.py'), ('numpy_plugin', 'plugins.py')], ['hasher()', 'What.id()'])

P('C30', 'Estimators are identified by their parameters, without the declared non-id ones',
  '''The configuration of a scikit-learn estimator has the declared short name of its class (the class name when it has none or the long name is
  requested), exactly its own parameters and the declared non-id parameters, and objects that have no parameters are inspected. Fitting or
  asking for configurations does not change the parameters. Patching scikit-learn never replaces a what method that a class
  already has, and doing it twice is the same as doing it once.''',
  'inputs configurations', 'all declared estimators, all parameter values, objects of undeclared classes', 'tests check a few estimators with fixed parameters',
  'wrappers/what_sklearn.py', [('_what_for_sklearn', 'wrappers/what_sklearn.py'), ('whatamize_sklearn', 'wrappers/what_sklearn.py')],
  ['estimator.what()', 'whatamize_sklearn()'])

P('C31', 'Introspection helpers report signatures and decorate exactly what is asked',
  '''The required arguments of a function are its positional parameters without default, in order, and checking for required arguments returns the
  function itself exactly when all of them are required positional parameters, raising otherwise. A decorating metaclass applies to each
  named member that a class defines itself the given decorators, in order and once, leaves all other members alone and ignores names the class does not
  define. An object is iterable exactly when it can be iterated, closures are exactly the functions with captured variables, and the subclasses listed are exactly
  the transitive ones.''',
  'programs inputs', 'all signatures, decorators and class hierarchies', 'doctests check one function and one hierarchy', 'misc.py',
  [('required_args, ensure_has_positional_args, init_argspec', 'misc.py'), ('decorate_some', 'misc.py'), ('is_iterable, is_closure, all_subclasses', 'misc.py')],
  ['required_args()', 'ensure_has_positional_args()', 'decorate_some()', 'is_iterable()', 'all_subclasses()'])

TECH = 'contracts on the real code, discharged by a deductive verifier (symbolic execution of /repo\'s source + z3), bounded ' \
       'stand-in for undecided functions'

NOTES = {}
LEVEL = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'levels.py')) else None


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in T:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in T:
        i = p['id']
        if not os.path.exists(os.path.join(HERE, 'runtime', i + '.py')):
            na.append(dict(property=i, reason='not claimed yet: its contracts are not built'))
            continue
        level = LEVEL.get(i, 'proof')
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=TECH, level=level,
                           level_note=NOTES.get(i, 'All obligations of the contracts listed in the evidence are discharged for all '
                                                   'inputs; assumptions and bounded stand-ins are listed there.')))
    m = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
             notes='pyver (in /verif/pyver) extracts the functions of /repo at every run (ast of the working tree) and discharges the '
                   'contracts of pyver/contracts; runtime/ holds the executable specifications used to find failing inputs and as '
                   'bounded stand-ins.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(checks), 'checks', len(na), 'not claimed')


main()
