"""Specifications of WhatamiRegistry, over its two dictionaries"""
from whatami.whatutils import what2id


def register(self, what, nickname):
    if what is None:
        raise ValueError()
    if nickname is None:
        raise ValueError()
    whatid = what2id(what)
    for nick in self._nick2id:
        if nick == nickname and self._nick2id[nick] != whatid:
            raise Exception()
    for an_id in self._id2nick:
        if an_id == whatid and self._id2nick[an_id] != nickname:
            raise Exception()
    self._id2nick[whatid] = nickname
    self._nick2id[nickname] = whatid
    return what


def list(self):
    return sorted(self._nick2id.items())


def remove(self, nickname, what):
    if nickname is None and what is None:
        raise ValueError()
    whatid = what2id(what) if what is not None else None
    if nickname is not None and what is not None:
        if not (nickname in self._nick2id and self._nick2id[nickname] == whatid):
            raise ValueError()
    if what is None:
        whatid = self._nick2id[nickname]     # KeyError if it is not registered
    if nickname is None:
        nickname = self._id2nick[whatid]     # KeyError if it is not registered
    del self._nick2id[nickname]
    del self._id2nick[whatid]


def nick2id(self, nickname):
    return self._nick2id[nickname] if nickname in self._nick2id else None


def id2nick(self, whatid):
    return self._id2nick[whatid] if whatid in self._id2nick else None


def nick_or_id(self, what):
    whatid = what2id(what)
    return self._id2nick[whatid] if whatid in self._id2nick else whatid


def reset(self):
    self._id2nick = {}
    self._nick2id = {}


def keeps_one_to_one(self, operation, *args):
    try:
        operation(*args)
    except BaseException:
        pass
    for nick in self._nick2id:
        if not (self._nick2id[nick] in self._id2nick and self._id2nick[self._nick2id[nick]] == nick):
            return False
    for whatid in self._id2nick:
        if not (self._id2nick[whatid] in self._nick2id and self._nick2id[self._id2nick[whatid]] == whatid):
            return False
    return True
