"""Specifications of whatami.whatutils"""
from whatami.what import What


def what2id(obj):
    if obj is None or isinstance(obj, str):
        return obj
    try:
        return obj.what().id()
    except AttributeError:
        try:
            return obj.id()
        except AttributeError:
            return introspected(obj).id()


def introspected(obj, *options):
    """see contracts/whatutils.py"""


def id2dict(whatid):
    what = parsed(whatid)
    parameters = {}
    for k in what.conf:
        v = what.conf[k]
        parameters[k] = v.to_dict() if isinstance(v, What) else v
    return {'whatami_name': what.name, 'whatami_out_name': what.out_name, 'whatami_conf': parameters}


def parsed(id_string, parser=None, visitor=None):
    """see contracts/whatutils.py"""


def keys_tuple(keys):
    return keys if isinstance(keys, tuple) else (keys,)


def whatvalues(what, keys):
    return tuple([what[k] for k in keys_tuple(keys)])


def sort_whats(whats, *keys):
    """pairs (configuration, values) sorted by value; ties in the original order; transposed"""
    by_value = sorted([(whatvalues(w, keys), w) for w in whats], key=first)
    if len(by_value) == 0:
        return ()
    return tuple([w for _, w in by_value]), tuple([v for v, _ in by_value])


def sort_whatids(whatids, *keys):
    by_value = sorted([(whatvalues(parsed(w), keys), w) for w in whatids], key=first)
    if len(by_value) == 0:
        return ()
    return tuple([w for _, w in by_value]), tuple([v for v, _ in by_value])


def first(pair):
    return pair[0]


def whatadd(what, key, values):
    if key in what.conf:
        raise ValueError()
    ids = []
    for value in values:
        changed = what.copy()
        changed.conf[key] = value
        ids.append(changed.id())
    return ids


def imported(module, install_msg=None, variants=()):
    """see contracts/whatutils.py"""


def whatamize_object(clazz, what_func, fail_on_import_error, force):
    """a what member is only replaced if forced"""
    try:
        if isinstance(clazz, str):
            module, _, name = clazz.rpartition('.')
            clazz = getattr(imported(module), name)
        if not hasattr(clazz, 'what') or force:
            clazz.what = what_func
    except ImportError:
        if fail_on_import_error:
            raise


def ignored(key, ignored_keys):
    """a key is ignored if it, or any prefix of it, is among the ignored ones"""
    if key in ignored_keys:
        return True
    if isinstance(key, tuple):
        return ignored(key[:-1] if len(key) > 1 else key[0], ignored_keys)
    return False


def compared(keys, values, ignored_keys):
    """what must be equal to match: values of keys that are not ignored, by name for configurations"""
    return [(v.name, v.out_name) if isinstance(v, What) else v
            for k, v in zip(keys, values) if not ignored(k, set(ignored_keys))]


def match_whatids(whatids, template, ignored_keys, non_ids_too, collections_too, recursive):
    template = parsed(template)
    keys, values = template.flatten(non_ids_too, collections_too, recursive)
    wanted = compared(keys, values, ignored_keys)
    matching = []
    for whatid in whatids:
        what = parsed(whatid)
        if what.name == template.name:
            ks, vs = what.flatten(non_ids_too, collections_too, recursive)
            if ks == keys and compared(ks, vs, ignored_keys) == wanted:
                matching.append(whatid)
    return matching


def ignore_step(ignore, key, ignored_keys):
    return ignore(key, ignored_keys)


def obj2what(obj, force_inspect, *options):
    if force_inspect or not is_it_whatable(obj):
        return introspected(obj, *options)
    return obj.what()


def is_it_whatable(obj):
    """see contracts/whatutils.py"""


def function_like(obj):
    from whatami.misc import config_dict_for_object
    members = config_dict_for_object(obj)
    return What(obj.__class__.__name__, {k: members[k] for k in members if not (k.startswith('_') or k.endswith('_'))})


def get_or_none(what, key):
    try:
        return what[key]
    except KeyError:
        return None


def key2colname(key):
    if isinstance(key, (tuple, list)):
        return '_'.join([str(k) for k in key])
    return key


def id2whatami4(oldwhatid):
    from arpeggio import NoMatch
    try:
        return translated(oldwhatid).id()
    except NoMatch:
        return oldwhatid


def translated(oldwhatid):
    """see contracts/whatutils.py"""


def oldid2what(oldwhatid):
    from whatami import build_oldwhatami_parser
    """the out parameter of old ids goes into the configuration, never replacing other"""
    if not oldwhatid.startswith('out='):
        return parsed(oldwhatid, build_oldwhatami_parser())
    head, _, tail = oldwhatid.partition('#')
    what = parsed(tail, build_oldwhatami_parser())
    if 'out' in what.conf:
        raise ValueError()
    what.conf['out'] = head[4:]
    return what


class Column(object):
    """the part of pandas.Series in use"""

    def __init__(self, values):
        self.values = values

    def unique(self):
        return list({v: None for v in self.values})

    def apply(self, f):
        return Column([f(v) for v in self.values])


class Frame(object):
    """the part of pandas.DataFrame in use"""

    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, name):
        return Column(self.columns[name])

    def __setitem__(self, name, column):
        self.columns[name] = column.values

    def copy(self):
        return Frame({k: self.columns[k] for k in self.columns})


def whatid2columns(df, whatid_col, columns, prefix, postfix, inplace):
    """a column for each key, with the value of each row or None"""
    if columns is None:
        found = {k for whatid in df.columns[whatid_col] for k in parsed(whatid).keys()}
        columns = sorted(found, key=key2colname)
    result = df if inplace else df.copy()
    ids = result.columns[whatid_col]
    for column in columns:
        name = key2colname(column)
        if prefix is not None:
            name = prefix + name
        if postfix is not None:
            name = name + postfix
        key = tuple(column) if isinstance(column, list) else column
        result.columns[name] = [get_or_none(parsed(whatid), key) for whatid in ids]
    return result


def call2what(depth, non_id_keys):
    import inspect
    from whatami.what import What
    frame, _, _, function_name, _, _ = inspect.stack()[depth]
    return What(function_name, frame.f_locals, non_id_keys=non_id_keys)
