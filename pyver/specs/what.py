"""Specifications of whatami.what"""
import hashlib
from whatami.plugins import WhatamiPluginManager


def trimmed(text, maxlength):
    if maxlength > 0 and len(text) > maxlength:
        return hashlib.sha1(text.encode('utf-8')).hexdigest()
    return text


def complete_id(self, nonids_too):
    parameters = [k for k in sorted(self.conf) if nonids_too or k not in self.non_id_keys]
    text = '%s(%s)' % (self.name, ','.join(['%s=%s' % (k, WhatamiPluginManager.build_string(self.conf[k]))
                                            for k in parameters]))
    if self.out_name is None:
        return text
    return '%s=%s' % (self.out_name, text)


def id(self, nonids_too=False, maxlength=0):
    return trimmed(complete_id(self, nonids_too), maxlength)


def positional_id(self, non_ids_too=False, maxlength=0):
    shown = [k for k in sorted(self.conf) if non_ids_too or k not in self.non_id_keys]
    text = '%s(%s)' % (self.name, ','.join([WhatamiPluginManager.build_string(self.conf[k]) for k in shown]))
    if self.out_name is not None:
        text = '%s=%s' % (self.out_name, text)
    return trimmed(text, maxlength)


def __str__(self):
    return complete_id(self, True)


def keys(self, non_ids_too=False, collections_too=False, recursive=True):
    return self.flatten(non_ids_too, collections_too, recursive)[0]


def values(self, non_ids_too=False, collections_too=False, recursive=True):
    return self.flatten(non_ids_too, collections_too, recursive)[1]


def __eq__(self, other):
    for attribute in ('name', 'conf', 'out_name'):
        if not hasattr(other, attribute):
            return False
    return self.name == other.name and self.conf == other.conf and self.out_name == other.out_name


def top_level(self, non_ids_too):
    """(keys, values) of the parameters, sorted by key"""
    shown = [k for k in sorted(self.conf) if non_ids_too or k not in self.non_id_keys]
    return shown, [self.conf[k] for k in shown]


def get(self, item, default=None):
    try:
        return self[item]
    except KeyError:
        return default


def set(self, key, value, copy):
    if copy:
        changed = self.copy()
        changed.conf[key] = value
        return changed
    self.conf[key] = value
    return self


def to_dict(self, nonids_too=False):
    from whatami.whatutils import id2dict
    return id2dict(complete_id(self, nonids_too))


def flatten_top(self, non_ids_too, recursive):
    return top_level(self, non_ids_too)


def deepcopied(d):
    from copy import deepcopy
    return {k: deepcopy(d[k]) for k in d}


def copy(self, deep):
    from copy import deepcopy
    if deep:
        conf = {k: deepcopy(self.conf[k]) for k in self.conf}
    else:
        conf = {k: self.conf[k] for k in self.conf}
    return built(self.name, conf, {k for k in self.non_id_keys}, self.out_name)


def make(What, name, conf, non_id_keys, out_name):
    return What(name, conf, non_id_keys=non_id_keys, out_name=out_name)


def made(name, conf, non_id_keys, out_name):
    if non_id_keys is None:
        declared = {k for k in ()}
    else:
        try:
            iter(non_id_keys)
        except TypeError:
            raise Exception()
        declared = {k for k in non_id_keys}
    return built(name, conf, declared, out_name)


def equal_to_what(self, other):
    return self.name == other.name and self.conf == other.conf and self.out_name == other.out_name


def independent(self, deep):
    copied = self.copy(deep)
    return copied.conf is not self.conf and copied.non_id_keys is not self.non_id_keys and copied is not self


def built(name, conf, non_id_keys, out_name):
    """see contracts/what.py"""


def step(container, key):
    """the member of a container, KeyError if it has no such member"""
    try:
        return container[key]
    except IndexError:
        raise KeyError()
    except TypeError:
        if hasattr(container, 'what'):
            return container.what()[key]
        raise KeyError()


def __getitem__(self, item):
    if item in self.conf:
        return self.conf[item]
    if not isinstance(item, tuple):
        raise KeyError()
    member = self.conf
    for key in item:
        member = step(member, key)
    return member


def entries(value, non_ids_too, collections_too):
    """(key, value) of the members of a value that can be flattened, in order"""
    from whatami.what import What
    if isinstance(value, What):
        return [(k, value.conf[k]) for k in sorted(value.conf) if non_ids_too or k not in value.non_id_keys]
    if collections_too and isinstance(value, (list, tuple)):
        return enumerate(value)
    if collections_too and isinstance(value, dict):
        return [(k, value[k]) for k in sorted(value)]
    return []


def flattened(value, prefix, non_ids_too, collections_too, recursive):
    """(keys, values): each member, followed by its own members if recursive; their keys are the path to them"""
    keys, values = [], []
    for k, v in entries(value, non_ids_too, collections_too):
        keys.append(k if len(prefix) == 0 else prefix + (k,))
        values.append(v)
        if recursive:
            subkeys, subvalues = flattened(v, prefix + (k,), non_ids_too, collections_too, recursive)
            keys.extend(subkeys)
            values.extend(subvalues)
    return keys, values


def flatten_into(flatten, value, keys, values, prefix, non_ids_too, collections_too, recursive):
    result = flatten(value, keys, values, prefix)
    return result, keys, values


def flattened_into(value, keys, values, prefix, non_ids_too, collections_too, recursive):
    ks, vs = flattened(value, prefix, non_ids_too, collections_too, recursive)
    keys.extend(ks)
    values.extend(vs)
    return (keys, values), keys, values


def flatten(self, non_ids_too, collections_too, recursive):
    return flattened(self, (), non_ids_too, collections_too, recursive)


def members_retrieved(value, non_ids_too, collections_too):
    """the key of each member retrieves it (so, by induction, each flattened key retrieves its value)"""
    for k, v in entries(value, non_ids_too, collections_too):
        if step(value, k) != v:
            return False
    return True

