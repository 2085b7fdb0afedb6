"""Snapshot and restoration of the whole mutable state of the code under check.

Between two paths the process has to come back to the state it was in before
the first one.  Nothing here knows where footprints keeps its state: everything
reachable from the globals of its modules (and of the bronx modules it builds
upon) is recorded: containers, instances, class attributes, default values and
closures of functions, caches of functools.
"""

import collections
import functools
import logging
import sys
import types
import weakref

_lru_sample = functools.lru_cache(lambda: None)

PREFIXES = ('footprints', 'bronx')
_SKIP_ATTRS = ('__dict__', '__weakref__', '__module__', '__doc__', '__qualname__', '__slots__',
               '__abstractmethods__', '_abc_impl', '__annotations__', '__builtins__',
               '__static_attributes__', '__firstlineno__', '__type_params__', '__annotate__')


def _ours(name):
    return isinstance(name, str) and (name in PREFIXES or name.startswith(tuple(p + '.' for p in PREFIXES)))


class Snapshot:

    def __init__(self):
        self.dicts, self.lists, self.sets, self.weaksets = [], [], [], []
        self.classes, self.cells, self.caches, self.bare = [], [], [], []
        self._seen = {}
        todo = self._todo = []
        for n, m in sorted(sys.modules.items()):
            if _ours(n) and isinstance(m, types.ModuleType):
                todo.append(m)
        while todo:
            x = todo.pop()
            if id(x) not in self._seen:
                self._seen[id(x)] = x
                self._visit(x)
        del self._todo
        self._count = len(self._seen)

    # -- recording

    def _dict(self, d, content, skip=()):
        self.dicts.append((d, content, skip, list(map(id, d)), list(map(id, d.values()))))

    def _visit(self, x):
        push = self._todo.append
        if isinstance(x, types.ModuleType):
            if _ours(x.__name__):
                d = x.__dict__
                self._dict(d, {k: v for k, v in d.items() if k not in _SKIP_ATTRS}, _SKIP_ATTRS)
                for k, v in d.items():
                    if k not in _SKIP_ATTRS:
                        push(v)
            return
        if isinstance(x, (logging.Logger, logging.Handler, logging.Filter, logging.Formatter)):
            return
        if isinstance(x, type):
            if _ours(x.__module__):
                d = {k: v for k, v in x.__dict__.items() if k not in _SKIP_ATTRS and
                     not isinstance(v, (types.GetSetDescriptorType, types.MemberDescriptorType))}
                self.classes.append((x, d, list(map(id, x.__dict__.values()))))
                for v in d.values():
                    push(v)
            return
        if isinstance(x, (staticmethod, classmethod)):
            push(x.__func__)
            return
        if isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                if f is not None:
                    push(f)
            return
        if isinstance(x, types.MethodType):
            push(x.__func__)
            push(x.__self__)
            return
        if isinstance(x, types.FunctionType):
            if not _ours(x.__module__):
                return
            for v in x.__defaults__ or ():
                push(v)
            for v in (x.__kwdefaults__ or {}).values():
                push(v)
            if x.__dict__:
                self._dict(x.__dict__, dict(x.__dict__))
                for v in x.__dict__.values():
                    push(v)
            else:
                self.bare.append(x)
            for c in x.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((c, v))
                push(v)
            return
        if isinstance(x, type(_lru_sample)):
            self.caches.append(x)
            push(x.__wrapped__)
            return
        # containers (also those which are instances of a class of the project)
        if isinstance(x, dict):
            self._dict(x, dict(dict.items(x)))
            for k, v in dict.items(x):
                push(k)
                push(v)
        elif isinstance(x, (list, collections.deque)):
            content = list(x)
            self.lists.append((x, content))
            for v in content:
                push(v)
        elif isinstance(x, set):
            content = set(x)
            self.sets.append((x, content))
            for v in content:
                push(v)
        elif isinstance(x, weakref.WeakSet):
            content = list(x)
            self.weaksets.append((x, content))
            for v in content:
                push(v)
        elif isinstance(x, (weakref.WeakValueDictionary, weakref.WeakKeyDictionary)):
            self._dict(x, dict(x))
            for k, v in dict(x).items():
                push(k)
                push(v)
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                push(v)
        if _ours(type(x).__module__) or isinstance(x, types.SimpleNamespace):
            d = getattr(x, '__dict__', None)
            if isinstance(d, dict):
                self._dict(d, dict(d))
                for v in d.values():
                    push(v)

    # -- restoration

    def restore(self):
        for d, content, skip, keys, values in self.dicts:
            if list(map(id, d.values())) == values and list(map(id, d)) == keys:
                continue
            if skip:
                for k in [k for k in d if k not in content and k not in skip]:
                    del d[k]
                d.update(content)
            else:
                base = next(b for b in (collections.OrderedDict, dict, type(d)) if isinstance(d, b))
                base.clear(d)
                for k, v in content.items():
                    base.__setitem__(d, k, v)
        for x, content in self.lists:
            if len(x) != len(content) or any(a is not b for a, b in zip(x, content)):
                if isinstance(x, list):
                    list.__setitem__(x, slice(None), content)
                else:
                    x.clear()
                    x.extend(content)
        for x, content in self.sets:
            if len(x) != len(content) or not all(a in x for a in content):
                set.clear(x)
                set.update(x, content)
        for x, content in self.weaksets:
            now = list(x)
            if len(now) != len(content) or {id(a) for a in now} != {id(a) for a in content}:
                x.clear()
                x.update(content)
        for f in self.bare:
            if f.__dict__:
                f.__dict__.clear()
        for cls, content, values in self.classes:
            d = cls.__dict__
            if list(map(id, d.values())) == values:
                continue
            for k in [k for k in d if k not in content and k not in _SKIP_ATTRS and
                      not isinstance(d[k], (types.GetSetDescriptorType, types.MemberDescriptorType))]:
                type.__delattr__(cls, k)
            for k, v in content.items():
                if d.get(k, cls) is not v:
                    type.__setattr__(cls, k, v)
        for c, v in self.cells:
            if c.cell_contents is not v:
                c.cell_contents = v
        for c in self.caches:
            c.cache_clear()
