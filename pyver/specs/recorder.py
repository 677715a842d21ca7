"""Specifications of Recorder"""
from collections import OrderedDict
from functools import partial
from whatami.misc import is_iterable


def column_defaults(self):
    return {c: self._column_defaults[c] for c in self._column_defaults}


def add_column_defaults(self, columns):
    for c in columns:
        self._column_defaults[c] = columns[c]


def remove_column_defaults(self, columns):
    self._column_defaults = {c: v for c, v in self._column_defaults.items() if c not in columns}


def record_postprocessors(self):
    """a copy of the list, or the tuple"""
    if isinstance(self._record_postprocessors, tuple):
        return self._record_postprocessors
    return [p for p in self._record_postprocessors]


def add_record_postprocessors(self, postprocessors):
    self._record_postprocessors = list(self._record_postprocessors) + list(postprocessors)


def new(name, id_column_name, id_extractor, record_postprocessors, column_defaults):
    """attributes of a new recorder, by name"""
    if not isinstance(id_column_name, str):
        raise ValueError()
    return (column_defaults, [p for p in record_postprocessors], OrderedDict(), id_column_name, id_extractor, name)


def override_record_postprocessors(self, postprocessors):
    self._record_postprocessors = list(postprocessors)


def get(self, ids):
    return [self._registry[i] for i in ids if i in self._registry]


def __len__(self):
    return len(self._registry)


def column_value(value, ids, an_id, unbox_iterables):
    """(value,) of a column for the record with id an_id, () if the record has no such column"""
    if isinstance(value, dict):
        return (value[an_id],) if an_id in value else ()
    if isinstance(value, str) or not is_iterable(value) or not unbox_iterables:
        return (value,)
    values = dict(zip(ids, value))
    return (values[an_id],) if an_id in values else (None,)


def lookup(params2dict, ids, value, unbox_iterables, an_id):
    mapping = params2dict(ids, value, unbox_iterables)
    return (mapping[an_id],) if an_id in mapping else ()


def column_values(ids, value, unbox_iterables):
    """{id: value of the column in its record}, see column_value"""
    return {i: column_value(value, ids, i, unbox_iterables)[0]
            for i in ids if len(column_value(value, ids, i, unbox_iterables))}


def add(self, ids, unbox_iterables, record_postprocessors, override_postprocessors, columns):
    if isinstance(ids, str) or not is_iterable(ids):
        ids = [ids]
    if self.id_extractor is not None:
        ids = [self.id_extractor(i) for i in ids]
    chain = self._record_postprocessors
    if record_postprocessors is not None:
        chain = (list(record_postprocessors) if override_postprocessors
                 else list(chain) + list(record_postprocessors))
    new = OrderedDict()
    for an_id in ids:
        if an_id in self._registry:
            raise Exception()
        if an_id in new:
            raise Exception()
        record = {c: column_values(ids, columns[c], unbox_iterables)[an_id] for c in columns
                  if an_id in column_values(ids, columns[c], unbox_iterables)}
        if self.id_column_name in record:
            raise Exception()
        record[self.id_column_name] = an_id
        for column in self._column_defaults:
            if column not in record:
                record[column] = self._column_defaults[column]
        for postprocessor in chain:
            record = postprocessor(an_id, record, self)
        new[an_id] = record
    for an_id in new:
        self._registry[an_id] = new[an_id]
    return new


def __getitem__(self, item):
    """the records with one id: one, or none"""
    return [self._registry[item]] if item in self._registry else []


def unique(self, column):
    values = set()
    for an_id in self._registry:
        record = self._registry[an_id]
        if column in record:
            values.add(record[column])
    return values


def padd(self, add, columns):
    return partial(self.add if add is None else add, **columns)
