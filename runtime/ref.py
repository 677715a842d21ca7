# coding=utf-8
"""Reference rendering of ids, written from the documentation"""
import hashlib
import inspect
from collections import OrderedDict
from functools import partial


class NoReference(Exception):
    pass


def quote(s):
    out = "'"
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] == "'":
            out += "\\'"
            i += 2
            continue
        out += "\\'" if s[i] == "'" else s[i]
        i += 1
    return out + "'"


def fields(o):
    """visible attributes of an instance"""
    return {k: v for k, v in getattr(o, '__dict__', {}).items()
            if not k.startswith('_') and not k.endswith('_') and k != 'what'}


def call_binding(c):
    """(name, parameters) of a function, partial or curried function; ValueError if the binding cannot be reported"""
    positional, keywords = [], {}
    while not inspect.isfunction(c):
        if not hasattr(c, 'func'):
            return c.__name__, keywords
        positional = list(c.args) + positional
        kw = dict(c.keywords or {})
        kw.update(keywords)
        keywords = kw
        c = c.func
    code = c.__code__
    params = list(code.co_varnames[:code.co_argcount])
    defaults = c.__defaults__ or ()
    known = dict(zip(params[len(params) - len(defaults):], defaults))
    known.update(keywords)
    if set(known) - set(params):
        raise ValueError('not a parameter')
    if len(positional) > len(params):
        raise ValueError('too many')
    for p, v in zip(params, positional):
        if p in known:
            raise ValueError('twice')
    known.update(zip(params, positional))
    return c.__name__.replace('<', '').replace('>', ''), known


def text(v):
    from whatami import What
    from whatami.minijoblib.hashing import hasher
    if isinstance(v, What):
        return what_id(v)
    t = type(v)
    if t is str:
        return quote(v)
    if v is None or t in (bool, int, float, complex):
        return repr(v)
    if v in (int, float, complex) if isinstance(v, type) else False:
        return v.__name__ + '()'
    if isinstance(v, type):
        return '<class \'%s\'>' % v.__name__
    if isinstance(v, tuple):
        s = '(%s)' % ','.join([text(x) for x in v])
        return s if t is tuple else '%s(seq=%s)' % (t.__name__, s)
    if isinstance(v, list):
        s = '[%s]' % ','.join([text(x) for x in v])
        return s if t is list else '%s(seq=%s)' % (t.__name__, s)
    if isinstance(v, OrderedDict):
        return conf_id(t.__name__, dict(fields(v), seq=list(v.items())))
    if isinstance(v, dict):
        s = '{%s}' % ','.join(sorted('%s:%s' % (text(k), text(x)) for k, x in v.items()))
        return s if t is dict else conf_id(t.__name__, dict(fields(v), seq=dict(v.items())))
    if isinstance(v, (set, frozenset)):
        s = '{%s}' % ','.join(sorted(text(x) for x in v)) if len(v) else 'set()'
        if t is set:
            return s
        if t is frozenset:
            return 'frozenset(%s)' % s if len(v) else 'frozenset()'
        return '%s(seq=%s)' % (t.__name__, s)
    if inspect.isfunction(v) and not hasattr(v, 'what'):
        name, params = call_binding(v)
        return conf_id(name, params)
    if isinstance(v, partial) or hasattr(v, 'func'):
        name, params = call_binding(v)
        return conf_id(name, params)
    if hasattr(v, 'tobytes'):
        return "%s(hash='%s')" % (t.__name__, hasher(v))
    if getattr(t, 'what', None) is not None or 'what' in getattr(v, '__dict__', {}):
        w = v.what()
        return what_id(w)
    if '__str__' in t.__dict__:
        s = str(v)
        return t.__name__ + '()' if ' at 0x' in s else s
    if t.__module__ in ('runtime.common',) or t.__name__ == 'Plain':
        return t.__name__ + '()'
    raise NoReference(repr(v))


def conf_id(name, conf, out_name=None, without=()):
    kvs = ','.join('%s=%s' % (k, text(conf[k])) for k in sorted(conf) if k not in without)
    return ('%s=' % out_name if out_name is not None else '') + '%s(%s)' % (name, kvs)


def what_id(w, nonids_too=False):
    return conf_id(w.name, w.conf, w.out_name, () if nonids_too else w.non_id_keys)


def positional_id(w, nonids_too=False):
    vs = ','.join(text(w.conf[k]) for k in sorted(w.conf) if nonids_too or k not in w.non_id_keys)
    return ('%s=' % w.out_name if w.out_name is not None else '') + '%s(%s)' % (w.name, vs)


def trimmed(s, maxlength):
    return hashlib.sha1(s.encode('utf-8')).hexdigest() if 0 < maxlength < len(s) else s
