"""Specifications of whatami.what.whatable"""
from functools import partial
from whatami.what import What, whatable, whatareyou


def call_of(c):
    """see contracts/decorating.py"""


# what is observed of the decorated function

def calling(obj, options, args, kwargs):
    return whatable(obj, **options)(*args, **kwargs)


def configuration(obj, options):
    return whatable(obj, **options).what()


def marked(obj, options):
    return whatable(obj, **options).what.whatami


def name(obj, options):
    return whatable(obj, **options).__name__


def documentation(obj, options):
    return whatable(obj, **options).__doc__


def two_configurations(obj, options):
    """configurations are not shared: changing one does not change the next"""
    f = whatable(obj, **options)
    w = f.what()
    w.conf['another'] = 1
    w.non_id_keys.add('another')
    return f.what()


# what it should be

def called(obj, options, args, kwargs):
    call_of(obj)
    return obj(*args, **kwargs)


def configured(obj, options):
    given, parameters = call_of(obj)
    declared = set(options['excludes'] or ()) | set(options['non_id_keys'] or ())
    return What(given, parameters, declared)


def original_name(obj, options):
    call_of(obj)
    return obj.__name__


def original_documentation(obj, options):
    call_of(obj)
    return obj.__doc__


def true(obj, options):
    call_of(obj)
    return True


# decorating other things

class Plain(object):
    pass


class Foreign(object):
    def what(self):
        return 1


class Whatable(object):
    def what(self):
        return What('mine', {})


def observe(kind, options):
    """(the same object is returned, configuration given later, configuration of a subclass or of another instance)"""
    if kind == 'class':
        class Some(object):
            pass

        class Other(Some):
            pass
        decorated = whatable(Some, **options)
        return decorated is Some, decorated().what(), Other().what()
    o = Plain()
    return whatable(o, **options) is o, o.what(), hasattr(Plain(), 'what')


def observed(kind, options):
    if kind == 'class':
        class Some(object):
            pass

        class Other(Some):
            pass
        return True, whatareyou(Some(), **options), whatareyou(Other(), **options)
    return True, whatareyou(Plain(), **options), False


def decorate_foreign(kind, options):
    """a foreign what is not touched"""
    if kind == 'class':
        try:
            whatable(Foreign, **options)
        except Exception:
            return Foreign().what()
    else:
        o = Foreign()
        try:
            whatable(o, **options)
        except Exception:
            return o.what()
    return 'decorated'


def foreign_kept(kind, options):
    return 1


def deferred(obj, options, args, kwargs):
    """whatable(**options)(obj)"""
    return whatable(**options)(obj)(*args, **kwargs), whatable(**options)(obj).what()


def called_and_configured(obj, options, args, kwargs):
    declared = configured(obj, options)
    return obj(*args, **kwargs), declared


def deferred_decorator(obj, options):
    return whatable(**options)(obj)


def decorated(obj, whatfunc=None, force_flag_as_whatami=False, non_id_keys=None, add_dict=True, add_slots=True,
              add_properties=True, add_class=False, exclude_prefix='_', exclude_postfix='_', excludes=('what',),
              modify_func_inplace=False):
    """see contracts/decorating.py"""


def direct_decorator(obj, options):
    return decorated(obj, **options)


def builtin(obj, options):
    return whatable(obj, **options)


def rejected(obj, options):
    raise TypeError()


# the options that change how the object is decorated

def modified_in_place(options, value):
    def function(x, y=3):
        return x, y
    d = whatable(function, modify_func_inplace=True, **options)
    return d is function, d(value), d.what(), d.what.whatami


def modified(options, value):
    def function(x, y=3):
        return x, y
    return True, (value, 3), configured(function, options), True


def with_own_what(options, value, in_place):
    """a function given by the user provides the configuration"""
    def function(x, y=3):
        return x, y

    def own(f):
        return value, f
    d = whatable(function, whatfunc=own, modify_func_inplace=in_place, **options)
    result = d.what()
    return d is function, d(value), result[0], result[1] is d, d.what.whatami, hasattr(function, 'what')


def own_what(options, value, in_place):
    if in_place:
        return True, (value, 3), value, True, True, True
    return False, (value, 3), value, True, True, False


def object_own_what(kind, options, value):
    def own(self):
        return value, self
    if kind == 'class':
        class Some(object):
            pass
        d = whatable(Some, whatfunc=own, **options)
        o = d()
        result = o.what()
        return d is Some, result[0], result[1] is o, o.what.whatami
    o = Plain()
    d = whatable(o, whatfunc=own, **options)
    result = d.what()
    return d is o, result[0], result[1] is o, o.what.whatami


def object_own(kind, options, value):
    return True, value, True, True


def marks(kind, options):
    if kind == 'class':
        class Some(object):
            pass
        return whatable(Some, **options)().what.whatami
    return whatable(Plain(), **options).what.whatami


def are_marked(kind, options):
    return True


def force_foreign(kind, options):
    """a foreign what is marked and otherwise not touched"""
    class Some(object):
        def what(self):
            return 1
    if kind == 'class':
        d = whatable(Some, force_flag_as_whatami=True, **options)
        return d is Some, Some().what(), Some.what.whatami
    o = Some()
    d = whatable(o, force_flag_as_whatami=True, **options)
    return d is o, o.what(), o.what.whatami


def forced(kind, options):
    return True, 1, True


def again(kind, options):
    """a whatable is decorated anew"""
    class Some(object):
        def what(self):
            return What('mine', {})
    Some.what.whatami = True
    if kind == 'class':
        d = whatable(Some, **options)
        return d is Some, d().what()
    o = Some()
    d = whatable(o, **options)
    return d is o, d.what()


def decorated_again(kind, options):
    class Some(object):
        def what(self):
            return What('mine', {})
    Some.what.whatami = True
    return True, whatareyou(Some(), **options)
