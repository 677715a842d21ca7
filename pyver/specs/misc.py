"""Specifications of whatami.misc"""
import inspect


# ------------------------------------------------------------------ introspection of objects

def trim_dict(cd, exclude_prefix, exclude_postfix, excludes):
    out = {}
    for k in cd:
        if exclude_prefix and k.startswith(exclude_prefix):
            continue
        if exclude_postfix and k.endswith(exclude_postfix):
            continue
        if k in excludes:
            continue
        out[k] = cd[k]
    return out


def attributes(obj):
    try:
        members = obj.__dict__
    except AttributeError:
        return {}
    return members.copy()


def slots(obj):
    return {n: d.__get__(obj) for n, d in inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
            if inspect.ismemberdescriptor(d) and n != '__weakref__'}


def properties(obj):
    return {n: d.__get__(obj) for n, d in inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
            if not inspect.ismemberdescriptor(d) and n != '__weakref__'}


def class_members(obj):
    return {n: v for n, v in inspect.getmembers(obj.__class__)}


def config_dict_for_object(obj, add_dict=True, add_slots=True, add_properties=True, add_class=False):
    """properties over slots over instance attributes over class members"""
    groups = []
    if add_class:
        groups.append(class_members(obj))
    if add_dict:
        groups.append(attributes(obj))
    if add_slots:
        groups.append(slots(obj))
    if add_properties:
        groups.append(properties(obj))
    conf = {}
    for group in groups:
        for k in group:
            conf[k] = group[k]
    return conf


def is_iterable(v):
    try:
        iter(v)
        return True
    except TypeError:
        return False


# ------------------------------------------------------------------ signatures

def fqn(obj, use_class=False):
    what = obj.__class__ if use_class else obj
    try:
        return what.__module__ + '.' + what.__qualname__
    except AttributeError:
        return what.__module__ + '.' + what.__name__


def required_args(func):
    args, _, _, defaults = inspect.getfullargspec(func)[:4]
    if not defaults:
        return args
    return args[:-len(defaults)]       # the last parameters are the ones with default values


def has_positional_args(func, args):
    required = required_args(func)
    for a in args:
        if a not in required:
            raise Exception()
    return func


# ------------------------------------------------------------------ calls

def call_dict(depth, ignores, ignore_varargs, overrides, over_overrides):
    names, varargs, varkw, values = inspect.getargvalues(inspect.stack()[depth][0])
    if varargs is not None and not ignore_varargs and values[varargs]:
        raise ValueError()
    call = {name: values[name] for name in names if name not in ignores}
    if varkw is not None:
        call.update(values[varkw])
    if overrides is not None:
        call.update(overrides)
    call.update(over_overrides)
    return call


# ------------------------------------------------------------------ parameters of callables

def curry2partial(obj):
    """functools.partial from any object with func, args and keywords"""
    from functools import partial
    try:
        func, args, keywords = obj.func, obj.args, obj.keywords
        return partial(func, *args, **keywords)
    except (AttributeError, TypeError):
        return obj


def function_call(c, positional, keywords, closure_extractor):
    """(name, parameters with a known value) of calling a function with these arguments"""
    if c.__closure__ is not None:
        c = closure_extractor(c)
    names, _, _, defaults = inspect.getfullargspec(c)[:4]
    known = dict(zip(names[-len(defaults):], defaults)) if defaults else {}
    known.update(keywords)
    bound = dict(zip(names[:len(positional)], positional))
    for k in known:
        if k not in names:
            raise ValueError()
    for k in bound:
        if k in known:
            raise ValueError()
    if len(set(names)) - len(known) < len(positional):
        raise ValueError()
    call = {k: known[k] for k in known}
    call.update(bound)
    return c.__name__.replace('<', '').replace('>', ''), call


def call_of(c, positional, keywords, closure_extractor):
    """see contracts/misc.py"""


def partial_call(c, positional, keywords, closure_extractor):
    """keywords of outer partials win, positional arguments of inner partials go first"""
    together = {k: c.keywords[k] for k in c.keywords}
    together.update(keywords)
    return call_of(c.func, list(c.args) + positional, together, closure_extractor)


def other_call(c, positional, keywords, closure_extractor):
    if not callable(c):
        raise ValueError()
    return c.__name__, keywords


def infer(infer_recursively, c, positional, keywords, closure_extractor):
    return infer_recursively(c, positional, keywords)


def callable2call(c, closure_extractor):
    return call_of(c, [], {}, closure_extractor)


# ------------------------------------------------------------------ lazy imports

def importable(variants):
    """the first variant that can be imported, and whether there is one"""
    from importlib import import_module
    for variant in variants:
        try:
            return import_module(variant), True
        except ImportError:
            pass
    return None, False


def maybe_import(library_name, install_msg, variants):
    module, found = importable(variants or (library_name,))
    return module if found else 'missing'


def really_import(real, library_name, install_msg, variants):
    """the real result, without looking into what stands for a missing library"""
    found = importable(variants or (library_name,))[1]
    module = real(library_name, install_msg, *variants)
    return module if found else 'missing'


def use(real, library_name, install_msg, variants, name):
    """the first use of a missing library"""
    try:
        module = real(library_name, install_msg, *variants)
    except ImportError:
        return 'too early'
    return getattr(module, name)


def use_of_missing():
    raise ImportError()


def maybe_import_member(member_fqn, fail_if_import_error, install_msg, variants):
    name, _, member = member_fqn.rpartition('.')
    if not name:
        raise ValueError()
    module, found = importable(variants or (name,))
    if found:
        try:
            return getattr(module, member)
        except ImportError:
            if fail_if_import_error:
                raise
            return None
    if fail_if_import_error:
        raise ImportError()
    return None


def apply(f, a, b, c, rest):
    return f(a, b, c, *rest)


# ------------------------------------------------------------------ classes

def init_argspec(obj):
    try:
        names, varargs, varkw, defaults = inspect.getfullargspec(obj.__init__)[:4]
    except TypeError:
        return (), (), (), (), ()
    required = names[:-len(defaults)] if defaults else names
    return names, varargs, varkw, defaults, required[1:] if required and required[0] == 'self' else required


def subclasses(cls):
    """direct subclasses, and those of each of them"""
    out = [s for s in cls.__subclasses__()]
    for s in cls.__subclasses__():
        out.extend(all_subclasses(s))
    return out


def all_subclasses(cls):
    """contract"""


def is_closure(c):
    return inspect.isfunction(c) and c.__closure__ is not None


def decorated_function(c):
    cells = c.__closure__
    if cells is None or len(cells) != 1 or not hasattr(c, 'what'):
        return c
    inside = cells[0].cell_contents
    return extracted(inside) if inspect.isfunction(inside) else c


def extracted(c):
    """contract"""


# ------------------------------------------------------------------ submodules

def submodules(package, recurse_packages, ignore_errors):
    from importlib import import_module
    from pkgutil import iter_modules
    found = {}
    if isinstance(package, str):
        try:
            package = import_module(package)
        except ImportError:
            if ignore_errors:
                return {}
            raise
    found[package.__name__] = package
    for _, submodule, is_package in iter_modules(package.__path__):
        name = package.__name__ + '.' + submodule
        try:
            found[name] = import_module(name)
        except ImportError:
            if not ignore_errors:
                raise
        if recurse_packages and is_package:
            try:
                found.update(import_submodules(name, recurse_packages, ignore_errors))
            except ImportError:
                if not ignore_errors:
                    raise
    return found


def import_submodules(name, recurse_packages, ignore_errors):
    """contract"""


# ------------------------------------------------------------------ decorating members of classes

def decorated_members(decorators, d):
    """each decorated member that exists goes through its decorators, in order; the others stay as they are"""
    for attr in decorators:
        if attr in d:
            chain = decorators[attr] if is_iterable(decorators[attr]) else [decorators[attr]]
            for decorator in chain:
                d[attr] = decorator(d[attr])
    return d
