"""Refactorings touching several files: definitions moved to other modules,
helpers shared between modules.  Development tool: python3 tools/moves.py [N]
"""
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
os.environ['SA_DEBUG'] = '1'
from mutate import RUN
from sa import main as M
from sa.source import Program

MOVES = []
SRC = '/repo/src/node/'


def block(rel, start, end):
    s = open(SRC + rel).read()
    i = s.index(start)
    j = s.index(end, i) if end else len(s)
    return s[i:j]


def move(rel, start, end, new, head, imp, after):
    """Move a block to a new module and import names instead."""
    t = block(rel, start, end)
    MOVES.append([(rel, t, ''), (new, None, head + '\n\n' + t.rstrip() +
                                 '\n'), (rel, after, imp + after)])


def m(*edits):
    MOVES.append(list(edits))


H = '# -*- coding: utf-8 -*-\n'
# 0 - 8: moved to a module of their own
move('behaviors/cache.py', 'def _keys(', '@implementer(IInvalidate)',
     'keys.py', H + 'from node.compat import IS_PY2',
     'from node.keys import _keys\n', 'from node.interfaces import ICache\n')
move('behaviors/events.py', 'ALL_EVENTS = object()', 'class UnknownEvent',
     'suppress.py', H + 'import threading',
     'from node.suppress import ALL_EVENTS\n'
     'from node.suppress import suppress_events\n',
     'from node.utils import UNSET\n')
move('behaviors/alias.py', '@implementer(IAliaser, IFullMapping)',
     '@implementer(IAlias)\n', 'aliasers.py', H +
     'from node.interfaces import IAliaser\n'
     'from node.utils import ReverseMapping\nfrom odict import odict\n'
     'from zope.interface import implementer\n'
     'from zope.interface.common.mapping import IFullMapping',
     'from node.aliasers import AliaserChain\n'
     'from node.aliasers import DictAliaser\n'
     'from node.aliasers import PrefixAliaser\n'
     'from node.aliasers import PrefixSuffixAliaser\n'
     'from node.aliasers import SuffixAliaser\n',
     'from node.interfaces import IAlias\n')
move('behaviors/fallback.py', '_marker = dict()', '@implementer(IFallback)',
     'behaviors/lookup.py', H + 'import threading',
     'from node.behaviors.lookup import _marker\n'
     'from node.behaviors.lookup import _to_root\n'
     'from node.behaviors.lookup import fallback_processing\n',
     'from node.interfaces import IFallback\n')
move('utils.py', 'CHARACTER_ENCODING =', 'def instance_property',
     'codec.py', H + 'from node.compat import UNICODE_TYPE\n'
     'from node.compat import iteritems\nfrom node.interfaces import INode',
     'from node.codec import CHARACTER_ENCODING\n'
     'from node.codec import StrCodec\nfrom node.codec import decode\n'
     'from node.codec import encode\nfrom node.codec import strcodec\n',
     'from node.compat import STR_TYPE\n')
move('utils.py', 'def instance_property', 'def node_by_path',
     'decorators.py', H, 'from node.decorators import instance_property\n',
     'from node.compat import func_name\n')
move('utils.py', '@implementer(IEnumerableMapping)\nclass ReverseMapping',
     '@implementer(IAttributeAccess)', 'reverse.py', H +
     'from zope.interface import implementer\n'
     'from zope.interface.common.mapping import IEnumerableMapping',
     'from node.reverse import ReverseMapping\n',
     'from node.compat import func_name\n')
move('serializer.py', 'class _serializer_registry',
     '###############################################################################\n# encoder',
     'registry.py', H + 'from odict import odict',
     'from node.registry import deserializer\n'
     'from node.registry import serializer\n',
     'from node.interfaces import IAttributes\n')
move('behaviors/reference.py', '@implementer(IReadMapping)\nclass NodeIndex',
     '@implementer(IReference)', 'behaviors/index.py', H +
     'from zope.interface import implementer\n'
     'from zope.interface.common.mapping import IReadMapping',
     'from node.behaviors.index import NodeIndex\n',
     'from node.interfaces import INode\n')
# 9: helper of the nodespaces
COND = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
"""
m(('utils.py', 'def node_by_path(', '''def is_reserved(key):
    """Is key the name of a nodespace?"""
    return isinstance(key, STR_TYPE) \\
        and key.startswith('__') and key.endswith('__')


def node_by_path('''),
  ('behaviors/nodespace.py', COND, '        if is_reserved(key):\n'),
  ('behaviors/nodespace.py', 'from node.compat import STR_TYPE\n',
   'from node.utils import is_reserved\n'))
# 10: location restored by a context manager
m(('utils.py', 'def node_by_path(', '''@contextmanager
def located(node, name, parent):
    """Locate node, unless the block fails."""
    location = node.__name__, node.__parent__
    node.__name__, node.__parent__ = name, parent
    try:
        yield node
    except Exception:
        node.__name__, node.__parent__ = location
        raise


def node_by_path('''),
  ('utils.py', 'import logging\n', 'from contextlib import contextmanager\nimport logging\n'),
  ('behaviors/common.py', """        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        with located(val, key, self):
            _next(self, key, val)
"""), ('behaviors/common.py', 'from node.utils import AttributeAccess\n',
       'from node.utils import AttributeAccess\n'
       'from node.utils import located\n'))
# 11: notification helper in node.events
m(('events.py', None, None, """

def notify(node, event, *args, **kw):
    \"\"\"Notify the event configured on node.\"\"\"
    if not node._notify_suppress:
        objectEventNotify(node.events[event](*args, **kw))
"""), ('events.py', 'from zope', 'from zope.component.event import objectEventNotify\nfrom zope'),
  ('behaviors/lifecycle.py', """        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        notify(self, 'added', val, newParent=self, newName=key)
"""), ('behaviors/lifecycle.py', """        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        notify(self, 'removed', delnode, oldParent=self, oldName=key)
"""), ('behaviors/lifecycle.py', """        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        notify(self.__parent__, 'modified', self.__parent__)
"""), ('behaviors/lifecycle.py', 'from node.events import NodeRemovedEvent\n',
       'from node.events import NodeRemovedEvent\n'
       'from node.events import notify\n'))
# 12: text of a name
NAME = """        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
"""
m(('compat.py', None, None, """

def text_name(name):
    if IS_PY2 and isinstance(name, UNICODE_TYPE):
        return name.encode('ascii', 'replace')
    return str(name)
"""), ('behaviors/nodify.py', NAME, '        name = text_name(self.name)\n'),
  ('behaviors/nodify.py', 'from node.compat import IS_PY2\n',
   'from node.compat import text_name\n'),
  ('behaviors/attributes.py', """        name = node.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(node.name, unicode) \\
            else str(node.name)
""", '        name = text_name(node.name)\n'),
  ('behaviors/attributes.py', 'from node.compat import IS_PY2\n',
   'from node.compat import text_name\n'))
# 13: repr of a node shared
m(('behaviors/nodify.py', """        class_name = self.__class__.__name__
""" + NAME + """        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )
""", """        return object_repr(self, self.name)
"""), ('behaviors/nodify.py', '@implementer(IDefaultInit)', '''def object_repr(ob, name):
    if IS_PY2 and isinstance(name, unicode):
        name = name.encode('ascii', 'replace')
    else:
        name = str(name)
    return '<{} object \\'{}\\' at {}>'.format(
        type(ob).__name__, name, hex(id(ob))[:-1])


@implementer(IDefaultInit)'''),
  ('behaviors/attributes.py', block('behaviors/attributes.py', '        name = node.name.encode', '\n\n@implementer(IAttributes)'),
   '        return object_repr(self, node.name)\n'),
  ('behaviors/attributes.py', 'from node.behaviors.nodify import Nodify\n',
   'from node.behaviors.nodify import Nodify\nfrom node.behaviors.nodify import object_repr\n'),
  ('behaviors/attributes.py', 'from node.compat import IS_PY2\n', ''))
# 14: missing keys suppressed by a shared helper
m(('compat.py', None, None, """

class suppressing(object):

    def __init__(self, *errors):
        self.errors = errors

    def __enter__(self):
        return self

    def __exit__(self, type_, value, traceback):
        return type_ is not None and issubclass(type_, self.errors)
"""), ('behaviors/cache.py', """    try:
        del cache[key]
    except KeyError:
        pass
""", """    with suppressing(KeyError):
        del cache[key]
"""), ('behaviors/cache.py', 'from node.compat import IS_PY2\n',
       'from node.compat import IS_PY2\nfrom node.compat import suppressing\n'))
# 15: Order validation as behavior of its own
V = block('behaviors/order.py', '    @override\n    def _validateinsertion', None)
m(('behaviors/order.py', V, ''), ('behaviors/validation.py', None, H + '''from plumber import Behavior
from plumber import override


class InsertionValidation(Behavior):

''' + V.rstrip() + '\n'), ('behaviors/order.py', 'class Order(Behavior)',
                           'class Order(InsertionValidation)'),
  ('behaviors/order.py', 'from plumber import Behavior\n',
   'from node.behaviors.validation import InsertionValidation\n'))
# 16: storages created by a shared factory
m(('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return dict()
""", """    storage = default(created(dict))
"""), ('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return odict()
""", """    storage = default(created(odict))
"""), ('behaviors/storage.py', 'class DictStorage(Storage)', '''def created(factory):
    def storage(self):
        return factory()
    return instance_property(storage)


class DictStorage(Storage)'''))
# 17: translation of keys shared by the operations of Alias
m(('behaviors/alias.py', """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
""", """        unaliased_key = unaliased(self, key)
"""), ('behaviors/alias.py', '@implementer(IAlias)\n', '''def unaliased(node, key):
    return key if node.aliaser is None else node.aliaser.unalias(key)


@implementer(IAlias)
'''))
# 18: instance_property as a descriptor class
m(('utils.py', block('utils.py', 'def instance_property', 'def node_by_path'),
   """class instance_property(object):
    \"\"\"Decorator like ``property``, but underlying function is only called once
    per instance.
    \"\"\"

    def __init__(self, func):
        self.func = func
        self.attribute_name = '_{}'.format(func.__name__)
        self.__doc__ = func.__doc__

    def __get__(self, ob, owner=None):
        if ob is None:
            return self
        try:
            return object.__getattribute__(ob, self.attribute_name)
        except AttributeError:
            setattr(ob, self.attribute_name, self.func(ob))
            return object.__getattribute__(ob, self.attribute_name)

    def __set__(self, ob, value):
        raise AttributeError("can't set attribute")


"""))
# 19: relative imports
m(('behaviors/order.py', 'from node.interfaces import IOrder\n',
   'from ..interfaces import IOrder\n'),
  ('behaviors/cache.py', 'from node.utils import instance_property\n',
   'from ..utils import instance_property\n'),
  ('behaviors/attributes.py', 'from node.behaviors.common import Adopt\n',
   'from .common import Adopt\n'))
# 20: modules imported instead of names
m(('behaviors/lifecycle.py', 'from zope.component.event import objectEventNotify\n',
   'from zope.component import event as component_event\n'),
  ('behaviors/lifecycle.py', 'objectEventNotify(', 'component_event.objectEventNotify('))
# 21: decoding of byte keys shared
m(('utils.py', 'def instance_property(', '''def decoded(value):
    """Text of bytes, other values as they are."""
    return decode(value) if isinstance(value, bytes) else value


def instance_property('''),
  ('behaviors/common.py', """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        return _next(self, decoded(key), decoded(val))
"""), ('behaviors/common.py', """        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)
""", """        return _next(self, decoded(key))
"""), ('behaviors/common.py', """        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)
""", """        _next(self, decoded(key))
"""), ('behaviors/common.py', 'from node.utils import decode\n',
       'from node.utils import decoded\n'))
# 22: base class of affix aliasers
m(('behaviors/alias.py', block('behaviors/alias.py', '@implementer(IAliaser)\nclass PrefixAliaser', '@implementer(IAliaser)\nclass AliaserChain'),
   '''class AffixAliaser(object):
    """Adds an affix to all keys."""
    kind = None

    def __init__(self, affix=None):
        self.affix = affix or ''

    def mismatch(self, key):
        return KeyError(u"key '{}' does not match {} '{}'".format(
            key, self.kind, self.affix))


@implementer(IAliaser)
class PrefixAliaser(AffixAliaser):
    kind = 'prefix'

    def __init__(self, prefix=None):
        super(PrefixAliaser, self).__init__(prefix)

    def alias(self, key):
        return self.affix + key

    def unalias(self, prefixed_key):
        if not prefixed_key.startswith(self.affix):
            raise self.mismatch(prefixed_key)
        return prefixed_key[len(self.affix):]


@implementer(IAliaser)
class SuffixAliaser(AffixAliaser):
    kind = 'suffix'

    def __init__(self, suffix=None):
        super(SuffixAliaser, self).__init__(suffix)

    def alias(self, key):
        return key + self.affix

    def unalias(self, suffixed_key):
        if not suffixed_key.endswith(self.affix):
            raise self.mismatch(suffixed_key)
        return suffixed_key[:len(suffixed_key) - len(self.affix)]


'''))
# 23: base class of thread local counters
m(('behaviors/fallback.py', block('behaviors/fallback.py', 'class _processing_data', 'def _to_root'),
   '''class fallback_processing(counting):
    data = counting_data(-1)


'''), ('compat.py', None, None, '''

class counting_data(threading.local):
    """Count of every thread."""

    def __init__(self, processing):
        self.processing = processing


class counting(object):
    data = None

    def __enter__(self):
        self.data.processing += 1
        return self.data.processing

    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
'''), ('compat.py', 'import sys\n', 'import sys\nimport threading\n'),
  ('behaviors/fallback.py', 'from node.interfaces import IFallback\n',
   'from node.compat import counting\nfrom node.compat import counting_data\nfrom node.interfaces import IFallback\n'))

# 24: storage and cache by a descriptor
m(('utils.py', 'def node_by_path(', """class Lazy(object):
    \"\"\"Value created per instance on first access.\"\"\"

    def __init__(self, factory, name):
        self.factory = factory
        self.name = name

    def __get__(self, ob, type_=None):
        if ob is None:
            return self
        try:
            return ob.__dict__[self.name]
        except KeyError:
            return ob.__dict__.setdefault(self.name, self.factory())


def node_by_path("""), ('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return dict()
""", """    storage = default(Lazy(dict, '_storage'))
"""), ('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return odict()
""", """    storage = default(Lazy(odict, '_storage'))
"""), ('behaviors/storage.py', 'from node.utils import instance_property\n',
       'from node.utils import Lazy\n'))
# 25: storage by a hook method
m(('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return dict()
""", """    @default
    @instance_property
    def storage(self):
        return self.storage_factory()

    storage_factory = default(staticmethod(dict))
"""))
# 26: storage by a hook method of the class
m(('behaviors/storage.py', """    @default
    @instance_property
    def storage(self):
        return odict()
""", """    @default
    @instance_property
    def storage(self):
        return self._create_storage()

    @default
    def _create_storage(self):
        return odict()
"""))
# 27: suppression as generator based context manager of a class of its own
m(('behaviors/events.py', block('behaviors/events.py', '        self.data.suppress += 1', 'class UnknownEvent'),
   """        return self.data.enter(self.events)

    def __exit__(self, type_, value, traceback):
        self.data.leave(self.events)


"""), ('behaviors/events.py', """        self.suppress = 0
        self.events = list()

""", """        self.suppress = 0
        self.events = list()

    def enter(self, events):
        self.suppress += 1
        self.events.extend(events)
        return self.suppress

    def leave(self, events):
        self.suppress -= 1
        for event in events:
            self.events.remove(event)

    def covers(self, event):
        return self.suppress > 0 and (
            ALL_EVENTS in self.events or event in self.events)

"""), ('behaviors/events.py', """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        if suppress_events.data.covers(event):
            return
"""))
# 28: subscribers in a class of their own
m(('behaviors/events.py', '''        for event, subscriber in kw.items():
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
''', '''        for event, subscriber in kw.items():
            self._require_event(event)
'''), ('behaviors/events.py', """    @finalize
    def bind(self""", """    @finalize
    def _require_event(self, event):
        if event in self.__events__ or event in type(self).__events__:
            return
        raise UnknownEvent(event)

    @finalize
    def bind(self"""))
# 29: index operations in functions of their own
m(('behaviors/reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
""", """            if not set(self._index).isdisjoint(val._index):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            _merge(self._index, val, val_index)
            try:
                _next(self, key, val)
            except Exception:
                _split(self._index, val, val_index)
                raise
            return
"""), ('behaviors/reference.py', '@implementer(IReference)', """def _merge(index, val, val_index):
    index.update(val_index)
    for node in list(val_index.values()):
        node._index = index
    val._index = index


def _split(index, val, val_index):
    for iuuid, node in val_index.items():
        del index[iuuid]
        node._index = val_index
    val._index = val_index


@implementer(IReference)"""))
# 30: writers and readers of the serializer as classes
m(('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
""", """            for callback in serializer.applying(ob):
                callback(self, ob, data)
"""), ('serializer.py', """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
""", """            for callback in deserializer.applying(node):
                callback(self, node, node_data)
"""), ('serializer.py', """        self.registry[self.ob] = ob
        return ob
""", """        self.registry[self.ob] = ob
        return ob

    @classmethod
    def applying(cls, node):
        for for_, callback in cls.registry.items():
            if issubclass(for_, Interface) and for_.providedBy(node):
                yield callback
            elif isinstance(node, for_):
                yield callback
"""))
# 31: fallback processing as generator based context manager
m(('behaviors/fallback.py', block('behaviors/fallback.py', 'class fallback_processing', 'def _to_root'),
   '''@contextmanager
def fallback_processing():
    data = fallback_processing.data
    data.processing += 1
    try:
        yield data.processing
    finally:
        data.processing -= 1


fallback_processing.data = _processing_data()


'''), ('behaviors/fallback.py', 'from node.interfaces import IFallback\n',
       'from contextlib import contextmanager\nfrom node.interfaces import IFallback\n'))
# 32: fallback search as a class
m(('behaviors/fallback.py', block('behaviors/fallback.py', 'def _to_root', '@implementer(IFallback)'),
   '''class _Search(object):
    """Search of a path below the fallbacks of the ancestors of a node.
    """

    def __init__(self, path):
        self.path = path
        self.visited = set()

    def up(self, node):
        parent = node.__parent__
        if parent is None:
            return _marker
        if not getattr(parent, 'fallback_key', _marker) \\
                or node in self.visited:
            return self.up(parent)
        self.visited.add(node)
        fallback = parent.get(parent.fallback_key, _marker)
        if fallback is _marker:
            return self.up(parent)
        return self.down(fallback)

    def down(self, node):
        for name in self.path[len(node.path):]:
            child = node.get(name, _marker)
            if child is _marker:
                return self.up(node)
            node = child
        return node


'''), ('behaviors/fallback.py', "_to_root(self, path=self.path + [key], visited=set())",
       "_Search(self.path + [key]).up(self)"))
# 33: cache eviction as context manager
m(('behaviors/cache.py', '''        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
''', '''        with _Evicted(self, key):
            _next(self, key, value)
'''), ('behaviors/cache.py', '''        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
''', '''        with _Evicted(self, key):
            _next(self, key)
'''), ('behaviors/cache.py', '''@implementer(ICache)
class Cache''', '''class _Evicted(object):
    """Key is not contained in cache of node before and after.
    """

    def __init__(self, node, key):
        self.node = node
        self.key = key

    def __enter__(self):
        self.evict()

    def __exit__(self, *exc_info):
        self.evict()

    def evict(self):
        _evict(self.node.cache, self.key)


@implementer(ICache)
class Cache'''))
# 34: suppression of detach as context manager method
m(('behaviors/lifecycle.py', '''        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
''', '''        with _quiet(self):
            node = _next(self, key)
'''), ('behaviors/lifecycle.py', '''@implementer(ILifecycle)
class''', '''class _quiet(object):
    """Suppress notification of node.
    """

    def __init__(self, node):
        self.node = node

    def __enter__(self):
        self.before = self.node._notify_suppress
        self.node._notify_suppress = True

    def __exit__(self, type_, value, traceback):
        self.node._notify_suppress = self.before


@implementer(ILifecycle)
class'''))
# 35: notification as method of the behavior
m(('behaviors/lifecycle.py', '''        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
''', '''        self._notify_changed('added', val, newParent=self, newName=key)
'''), ('behaviors/lifecycle.py', '''        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
''', '''        self._notify_changed('removed', delnode, oldParent=self, oldName=key)
'''), ('behaviors/lifecycle.py', '''    _notify_suppress = default(False)

    @plumb
    def __init__''', '''    _notify_suppress = default(False)

    @override
    def _notify_changed(self, kind, *args, **kw):
        if not self._notify_suppress:
            objectEventNotify(self.events[kind](*args, **kw))

    @plumb
    def __init__'''), ('behaviors/lifecycle.py', 'from plumber import default\n',
     'from plumber import default\nfrom plumber import override\n'))
# 36: index joined by a context manager
m(('behaviors/reference.py', block('behaviors/reference.py',
   '            val_index = val._index\n', '            return\n        _next(self, key, val)\n'),
   '''            with _Joined(self._index, val):
                _next(self, key, val)
'''), ('behaviors/reference.py', '''@implementer(IReadMapping)
class NodeIndex''', '''class _Joined(object):
    """Index of a tree joined with index of a node added.
    """

    def __init__(self, index, node):
        self.index = index
        self.node = node
        self.own = node._index

    def __enter__(self):
        self.index.update(self.own)
        for node in list(self.own.values()):
            node._index = self.index
        self.node._index = self.index

    def __exit__(self, type_, value, traceback):
        if type_ is None or not issubclass(type_, Exception):
            return
        for uuid, node in self.own.items():
            del self.index[uuid]
            node._index = self.own
        self.node._index = self.own


@implementer(IReadMapping)
class NodeIndex'''))
# 37: insertion next to a node shared
m(('behaviors/order.py', block('behaviors/order.py', '''    @override
    def insertbefore''', '''    @override
    def _setinserted'''), '''    @override
    def insertbefore(self, newnode, refnode):
        self._insertat('insertbefore', newnode, refnode)

    @override
    def insertafter(self, newnode, refnode):
        self._insertat('insertafter', newnode, refnode)

    @override
    def _insertat(self, where, newnode, refnode):
        self._validateinsertion(newnode)
        insert = getattr(self.storage, where)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)

'''))
# 38: registration by closures
m(('serializer.py', block('serializer.py', 'class _serializer_registry', '####'),
   '''def _registry_decorator(registry):
    def decorator(ob):
        def register(callback):
            registry[ob] = callback
            return callback
        return register
    decorator.registry = registry
    return decorator


serializer = _registry_decorator(odict())
deserializer = _registry_decorator(odict())


'''))
# 39: callbacks looked up by a shared helper
m(('serializer.py', '''            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
''', '''            serializer.run(self, ob, data)
'''), ('serializer.py', '''            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
''', '''            deserializer.run(self, node, node_data)
'''), ('serializer.py', '''        self.registry[self.ob] = ob
        return ob
''', '''        self.registry[self.ob] = ob
        return ob

    @classmethod
    def run(cls, coder, node, data):
        """Call everything registered for node.
        """
        for for_, callback in cls.registry.items():
            if issubclass(for_, Interface) and for_.providedBy(node) \\
                    or isinstance(node, for_):
                callback(coder, node, data)
'''))
# 40: encoding split in methods
m(('serializer.py', block('serializer.py', '    def default(self, ob):', '####'), '''    def default(self, ob):
        for applies, encode in (
                (lambda ob: ob is UNSET, self.encode_unset),
                (lambda ob: isinstance(ob, uuid.UUID), self.encode_uuid),
                (INode.providedBy, self.encode_node),
                (isclass, self.encode_ob),
                (ismethod, self.encode_ob),
                (isfunction, self.encode_ob)):
            if applies(ob):
                return encode(ob)
        # no custom serialization required
        return ob

    def encode_unset(self, ob):
        return '<UNSET>'

    def encode_uuid(self, ob):
        return '<UUID>:{}'.format(ob)

    def encode_ob(self, ob):
        name = self.dotted_name(ob)
        return name if self.simple_mode else {'__ob__': name}

    def encode_node(self, ob):
        data = dict()
        if not self.simple_mode or self.include_class:
            data['class'] = self.dotted_name(ob)
        data['name'] = ob.name
        for cls, callback in serializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(ob):
                callback(self, ob, data)
            elif isinstance(ob, cls):
                callback(self, ob, data)
        return data if self.simple_mode else {'__node__': data}


'''))
# 41: codec by one walker
m(('utils.py', block('utils.py', '        if isinstance(arg, (list, tuple)):\n            arg = arg.__class__(map(self.encode', '    def decode(self, arg):'),
   '''        if isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
            return arg
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        return self._nested(self.encode, arg)

    def _nested(self, convert, arg):
        if isinstance(arg, (list, tuple)):
            return arg.__class__(map(convert, arg))
        if isinstance(arg, dict) or INode.providedBy(arg):
            return dict([convert(t) for t in iteritems(arg)])
        return arg

'''), ('utils.py', block('utils.py', '        if isinstance(arg, (list, tuple)):\n            arg = arg.__class__(map(self.decode', 'strcodec ='),
   '''        if not isinstance(arg, bytes):
            return self._nested(self.decode, arg)
        try:
            return arg.decode(self._encoding)
        except UnicodeDecodeError:
            # in soft mode we leave the string, otherwise we raise the
            # exception
            if self._soft:
                return arg
            raise


'''))
# 42: views share a generator
m(('utils.py', '''    def __getitem__(self, value):
        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
''', '''    def _pairs(self):
        for key in self.context:
            yield self.context[key], key

    def __getitem__(self, value):
        for val, key in self._pairs():
            if val == value:
                return key
        raise KeyError(value)
'''), ('utils.py', '''        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
''', '''        return any(val == value for val, _ in self._pairs())
'''), ('utils.py', '''        for key in self.context:
            yield self.context[key]
''', '''        for val, _ in self._pairs():
            yield val
'''), ('utils.py', '''        return [key for key in self.context]

    def items(self):
        return [(v, k) for k, v in self.context.items()]
''', '''        return [key for _, key in self._pairs()]

    def items(self):
        return list(self._pairs())
'''))
# 43: context of the view by a helper function
m(('utils.py', '''@implementer(IAttributeAccess)
class AttributeAccess''', '''def _context(view):
    return object.__getattribute__(view, 'context')


@implementer(IAttributeAccess)
class AttributeAccess'''), ('utils.py', '''        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
''', '''        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
'''), ('utils.py', '''    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __getitem__(self, name):
        context = object.__getattribute__(self, 'context')
        return context[name]
''', '''    def __setattr__(self, name, value):
        self[name] = value

    def __getitem__(self, name):
        return _context(self)[name]
'''), ('utils.py', '''        context = object.__getattribute__(self, 'context')
        del context[name]
''', '''        del _context(self)[name]
'''))
# 44: tree lock: contextmanager function used by the decorator
m(('locking.py', block('locking.py', 'class TreeLock', 'def locktree'), '''def _root_lock(node):
    root = node.root
    with _creation_lock:
        try:
            return root._treelock
        except AttributeError:
            root._treelock = lock = RLock()
            return lock


class TreeLock(object):

    def __init__(self, node):
        self.lock = _root_lock(node)

    def __enter__(self):
        self.lock.acquire()

    acquire = __enter__

    def __exit__(self, *exc_info):
        self.lock.release()

    def release(self):
        self.__exit__()


'''), ('locking.py', '''        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
''', '''        with TreeLock(self):
            return fn(self, *args, **kwargs)
'''))
# 45: validation by a helper of the module
m(('behaviors/common.py', '''        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
''', '''        if not self.allow_non_node_childs:
            _ensure_node(val)
        _next(self, key, val)
'''), ('behaviors/common.py', '''@implementer(INodeChildValidate)
''', '''_refused = (
    (inspect.isclass, 'It isn\\'t allowed to use classes as values.'),
    (lambda val: not INode.providedBy(val), 'Non-node childs are not allowed.'),
)


def _ensure_node(val):
    for applies, message in _refused:
        if applies(val):
            raise ValueError(message)


@implementer(INodeChildValidate)
'''))
# 46: decoding by a decorator
m(('behaviors/common.py', block('behaviors/common.py', '''    @plumb
    def __delitem__(_next, self, key):
        if isinstance(key, bytes)''', '@implementer(IUUIDAware)'), '''    @plumb
    def __delitem__(_next, self, key):
        _next(self, _text(key))

    @plumb
    def __getitem__(_next, self, key):
        return _next(self, _text(key))

    @plumb
    def __setitem__(_next, self, key, val):
        return _next(self, *map(_text, (key, val)))


'''), ('behaviors/common.py', '''@implementer(IUnicodeAware)
''', '''def _text(value):
    return decode(value) if isinstance(value, bytes) else value


@implementer(IUnicodeAware)
'''))
# 47: uuids of a tree by a generator
m(('behaviors/common.py', block('behaviors/common.py', '        if IUUIDAware.providedBy(node):\n            if override', None), '''        for candidate in (_tree(node) if recursiv else (node,)):
            if not IUUIDAware.providedBy(candidate):
                continue
            if override or not candidate.uuid:
                candidate.uuid = self.uuid_factory()
'''), ('behaviors/common.py', '''@implementer(IUUIDAware)
''', '''def _tree(node):
    """Iterate node and all nodes below.
    """
    yield node
    for child in node.values():
        # non-Node values have no uuid and no children
        if INode.providedBy(child):
            for item in _tree(child):
                yield item


@implementer(IUUIDAware)
'''))
# 48: dispatch tables of events
m(('behaviors/events.py', '''        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
''', '''        if suppress_events.suppressed(event):
            return
'''), ('behaviors/events.py', '''    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
''', '''    @classmethod
    def suppressed(cls, event):
        """Return whether event is suppressed in this thread.
        """
        if not cls.data.suppress:
            return False
        return ALL_EVENTS in cls.data.events or event in cls.data.events

    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
'''))
# 49: event attribute: storage and announcing in methods of their own
m(('behaviors/events.py', block('behaviors/events.py', '        return getattr(obj, self.storage).get', '    def subscriber(self, func)'), '''        return self._values(obj).get(self.name, self.default)

    def __set__(self, obj, value):
        """Set attribute value. Triggers event if value changed.
        """
        values = self._values(obj)
        changed = values.get(self.name, self.default) != value
        values[self.name] = value
        if changed or self.always_dispatch:
            self._announce(obj, value)

    def __delete__(self, obj):
        """Delete attribute value.
        """
        del self._values(obj)[self.name]
        self._announce(obj, UNSET)

    def _values(self, obj):
        return getattr(obj, self.storage)

    def _announce(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)

'''))
# 50: subscribers of an event by a method
m(('behaviors/events.py', '''            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
''', '''            subscribers = _bound(self, event, create=True)
            if subscriber not in subscribers:
                subscribers.append(subscriber)
'''), ('behaviors/events.py', '''            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
''', '''            _discard(_bound(self, event), subscriber)
'''), ('behaviors/events.py', '''                if subscriber in subscribers:
                    subscribers.remove(subscriber)
''', '''                _discard(subscribers, subscriber)
'''), ('behaviors/events.py', '''        for subscriber in list(self.__subscribers__.get(event, list())):
''', '''        for subscriber in list(_bound(self, event)):
'''), ('behaviors/events.py', '''@implementer(IEvents)
''', '''def _bound(ob, event, create=False):
    if create:
        return ob.__subscribers__.setdefault(event, list())
    return ob.__subscribers__.get(event, list())


def _discard(subscribers, subscriber):
    try:
        subscribers.remove(subscriber)
    except ValueError:
        pass


@implementer(IEvents)
'''))
# 51: lookup by reduce
m(('utils.py', '''    node = root
    for name in path:
        node = node[name]
    return node
''', '''    return reduce(getitem, path, root)
'''), ('utils.py', 'import logging\n', 'from functools import reduce\nfrom operator import getitem\nimport logging\n'))
# 52: codec classes for both directions
m(('behaviors/common.py', '''        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
''', '''        with _Located(val, key, self):
            _next(self, key, val)
'''), ('behaviors/common.py', '''@implementer(IAdopt)
''', '''class _Located(object):
    """Location of a node, given back if something goes wrong.
    """

    def __init__(self, node, name, parent):
        self.node = node
        self.new = (name, parent)
        self.old = (node.__name__, node.__parent__)

    def __enter__(self):
        self.apply(self.new)
        return self.node

    def __exit__(self, type_, value, traceback):
        if type_ is not None and issubclass(type_, Exception):
            self.apply(self.old)
        return False

    def apply(self, location):
        self.node.__name__, self.node.__parent__ = location


@implementer(IAdopt)
'''))
# 53: debug by a class
m(('utils.py', '''        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
''', '''        log('args={}, kws={}', args, kws)
        result = func(*args, **kws)
        log('--> {}', result)
        return result
'''), ('utils.py', '''def debug(func):
    """Decorator for logging debug messages.
    """
''', '''def debug(func):
    """Decorator for logging debug messages.
    """
    def log(message, *values):
        logger.debug(u'{}: {}'.format(
            func_name(func), message.format(*map(UNICODE_TYPE, values))))

'''))
# 54: class attributes set after the definition
m(('behaviors/events.py', '    data = _suppress_data()\n', ''),
  ('behaviors/events.py', 'class UnknownEvent', 'suppress_events.data = _suppress_data()\n\n\nclass UnknownEvent'))
# 55: decoding methods made by a factory
m(('behaviors/common.py', block('behaviors/common.py', '''    @plumb
    def __delitem__(_next, self, key):
        if isinstance(key, bytes)''', '@implementer(IUUIDAware)'), '''    __delitem__ = plumb(_decoded)
    __getitem__ = plumb(_decoded)
    __setitem__ = plumb(_decoded)


'''), ('behaviors/common.py', '''@implementer(IUnicodeAware)
''', '''def _decoded(_next, self, key, *values):
    args = [decode(arg) if isinstance(arg, bytes) else arg
            for arg in (key,) + values]
    return _next(self, *args)


@implementer(IUnicodeAware)
'''))
# 56: notification of attribute changes by a factory
m(('behaviors/lifecycle.py', block('behaviors/lifecycle.py', '''@implementer(IAttributesLifecycle)''', None), '''def _notifying(_next, self, *args):
    _next(self, *args)
    node = self.__parent__
    if not node._notify_suppress:
        objectEventNotify(node.events['modified'](node))


@implementer(IAttributesLifecycle)
class AttributesLifecycle(Behavior):
    __setitem__ = plumb(_notifying)
    __delitem__ = plumb(_notifying)
'''))
# 57: evicting operations by a function of the module
m(('behaviors/cache.py', block('behaviors/cache.py', '''    @plumb
    def __setitem__''', '''    @plumb
    def __iter__'''), '''    @plumb
    def __setitem__(_next, self, key, value):
        _evicting(_next, self, key, value)

    @plumb
    def __delitem__(_next, self, key):
        _evicting(_next, self, key)

'''), ('behaviors/cache.py', '''@implementer(ICache)
''', '''def _evicting(_next, node, key, *args):
    _evict(node.cache, key)
    try:
        _next(node, key, *args)
    finally:
        # reading the child down the plumbing chain populates the cache
        _evict(node.cache, key)


@implementer(ICache)
'''))
# 58: routing of nodespaces by a helper returning a container
m(('behaviors/nodespace.py', block('behaviors/nodespace.py', '''    @plumb
    def __getitem__''', None), '''    @plumb
    def __getitem__(_next, self, key):
        spaces = _spaces_for(self, key)
        return _next(self, key) if spaces is None else spaces[key]

    @plumb
    def __setitem__(_next, self, key, val):
        spaces = _spaces_for(self, key)
        if spaces is None:
            _next(self, key, val)
        else:
            val.__name__ = key
            val.__parent__ = self
            spaces[key] = val

    @plumb
    def __delitem__(_next, self, key):
        spaces = _spaces_for(self, key)
        if spaces is None:
            _next(self, key)
        else:
            del spaces[key]
'''), ('behaviors/nodespace.py', '''@implementer(INodespaces)
''', '''def _spaces_for(node, key):
    """Nodespaces if key addresses one.
    """
    if not isinstance(key, STR_TYPE):
        return None
    if not (key.startswith('__') and key.endswith('__')):
        return None
    return node.nodespaces


@implementer(INodespaces)
'''))
# 59: tree representation by a generator of lines
m(('behaviors/nodify.py', block('behaviors/nodify.py', '''        res = '{}{}\\n'.format(indent''', '''    @override
    def printtree'''), '''        return ''.join(self._treelines(indent, prefix))

    @override
    def _treelines(self, indent, prefix):
        yield '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=lambda x: UNICODE_TYPE(x[0]))
        indent += 2
        for key, value in items:
            if INode.providedBy(value):
                yield value.treerepr(indent=indent, prefix=prefix)
            else:
                yield '{}{}: {}\\n'.format(indent * prefix, key, repr(value))

'''))
# 60: ancestors by an iterator of their own
m(('behaviors/nodify.py', block('behaviors/nodify.py', '''        node = self.parent
        while node is not None:''', '''    @override
    def filtereditervalues'''), '''        if IInterface.providedBy(interface):
            def matches(node):
                return interface.providedBy(node) or \\
                    isinstance(node, interface)
        else:
            def matches(node):
                return isinstance(node, interface)
        ancestors = LocationIterator(self.parent)
        return next((node for node in ancestors if matches(node)), None)

'''))
# 61: text of names by a helper in utils
m(('behaviors/nodify.py', '''        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
''', '''        return [node.name for node in reversed(lineage(self))]
'''), ('behaviors/nodify.py', '''        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
''', '''        return lineage(self)[-1]
'''), ('behaviors/nodify.py', 'from node.utils import LocationIterator\n', 'from node.utils import LocationIterator\nfrom node.utils import lineage\n'),
  ('utils.py', '''@implementer(IEnumerableMapping)
class ReverseMapping''', '''def lineage(obj):
    """Object and all of its parents as list.
    """
    return list(LocationIterator(obj))


@implementer(IEnumerableMapping)
class ReverseMapping'''))
# 62: attributes made by a method
m(('behaviors/attributes.py', block('behaviors/attributes.py', '        try:\n            attrs = self.nodespaces', '    # B/C\n    attributes'), '''        attrs = self._attrs_nodespace()
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs

    @finalize
    def _attrs_nodespace(self):
        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            nodespaces['__attrs__'] = attrs
        return nodespaces['__attrs__']

'''))
# 63: keys of aliases by a context manager
m(('behaviors/alias.py', block('behaviors/alias.py', '''        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key)
''', '''    @plumb
    def __iter__'''), '''        with _Aliased(self.aliaser, key) as unaliased_key:
            _next(self, unaliased_key)

'''), ('behaviors/alias.py', '''@implementer(IAlias)
''', '''class _Aliased(object):

    def __init__(self, aliaser, alias):
        self.alias = alias
        self.key = alias if aliaser is None else aliaser.unalias(alias)

    def __enter__(self):
        return self.key

    def __exit__(self, type_, value, traceback):
        if type_ is not None and issubclass(type_, KeyError):
            raise KeyError(self.alias)


@implementer(IAlias)
'''))
# 64: reading of children guarded by a helper of the module
m(('behaviors/mapping.py', '''        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__''', '''        value = _read(self, key)
        return default if value is _missing else value

    @default
    def __contains__'''), ('behaviors/mapping.py', '''        try:
            self[key]
        except KeyError:
            return False
        return True
''', '''        return _read(self, key) is not _missing
'''), ('behaviors/mapping.py', '''@implementer(IReadMapping)
''', '''_missing = object()


def _read(mapping, key):
    try:
        return mapping[key]
    except KeyError:
        return _missing


@implementer(IReadMapping)
'''))
# 65: lists made of the iterators
m(('behaviors/mapping.py', '''        return [self[key] for key in self]
''', '''        return list(_values(self))
'''), ('behaviors/mapping.py', '''        return [(key, self[key]) for key in self]
''', '''        return list(_items(self))
'''), ('behaviors/mapping.py', '''        for key in self:
            yield self[key]
''', '''        return _values(self)
'''), ('behaviors/mapping.py', '''        for key in self:
            yield key, self[key]
''', '''        return _items(self)
'''), ('behaviors/mapping.py', '''@implementer(IEnumerableMapping)
''', '''def _items(mapping):
    for key in mapping:
        yield key, mapping[key]


def _values(mapping):
    return (value for _, value in _items(mapping))


@implementer(IEnumerableMapping)
'''))
# 66: fixed children made by a generator
m(('behaviors/common.py', '''        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
''', '''        self._children = odict(_fixed(self))
'''), ('behaviors/common.py', '''@implementer(IFixedChildren)
''', '''def _fixed(node):
    for key, factory in node.fixed_children_factories:
        child = factory()
        child.__name__, child.__parent__ = key, node
        yield key, child


@implementer(IFixedChildren)
'''))
# 67: storages: operations by a mixin
m(('behaviors/cache.py', '''        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
''', '''        if key is None:
            self._drop(_keys(self.storage))
        elif key in _keys(self):
            self._drop([key])
        else:
            raise KeyError(key)

    @default
    def _drop(self, keys):
        """Remove keys from storage, whether they are loaded or not.
        """
        storage = self.storage
        for key in keys:
            try:
                del storage[key]
            except KeyError:
                pass
'''))
# 68: uuid index changed by methods of an index class
m(('behaviors/reference.py', '''        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
''', '''        _reindex(self._index, self, self._uuid, iuuid)
        self._uuid = uuid
'''), ('behaviors/reference.py', '''@implementer(IReadMapping)
class NodeIndex''', '''def _reindex(index, node, old, new):
    index.pop(None if old is None else int(old), None)
    index[new] = node


@implementer(IReadMapping)
class NodeIndex'''))
# 69: uuids of a subtree by a generator
m(('behaviors/reference.py', block('behaviors/reference.py', '''        todel = [int(self.uuid)]
''', '''    @default
    def _index_nodes'''), '''        return list(_subtree(self))

'''), ('behaviors/reference.py', '''@implementer(IReadMapping)
class NodeIndex''', '''def _subtree(node):
    yield int(node.uuid)
    for key in node:
        child = node[key]
        try:
            uuids = child._to_delete()
        except AttributeError:
            # Non-Node values or non referencing children are not told
            # about deletion.
            continue
        for uuid in uuids:
            yield uuid


@implementer(IReadMapping)
class NodeIndex'''))
# 70: operations of storages by a factory
m(('behaviors/storage.py', block('behaviors/storage.py', '''    @override
    def __getitem__''', 'class DictStorage'), '''    @override
    def __getitem__(self, key):
        return getitem(self.storage, key)

    @override
    def __delitem__(self, key):
        delitem(self.storage, key)

    @override
    def __setitem__(self, key, val):
        setitem(self.storage, key, val)

    @override
    def __iter__(self):
        return iter(self.storage)


'''), ('behaviors/storage.py', 'from odict import odict\n', 'from odict import odict\nfrom operator import delitem\nfrom operator import getitem\nfrom operator import setitem\n'))
# 71: operations delegated by lambdas
m(('behaviors/storage.py', block('behaviors/storage.py', '''    @override
    def __getitem__''', 'class DictStorage'), '''    __getitem__ = override(lambda self, key: self.storage[key])
    __delitem__ = override(lambda self, key: self.storage.__delitem__(key))
    __setitem__ = override(
        lambda self, key, val: self.storage.__setitem__(key, val))
    __iter__ = override(lambda self: self.storage.__iter__())


'''))
# 72: aliasers by common functions
m(('behaviors/alias.py', '''        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
''', '''        return self._translate(ReverseMapping(self).__getitem__, key)
'''), ('behaviors/alias.py', '''        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
''', '''        return self._translate(self.__getitem__, aliased_key)

    def _translate(self, lookup, key):
        try:
            return lookup(key)
        except KeyError:
            if self.strict:
                raise
        return key
'''))
# 73: chain by reduce
m(('behaviors/alias.py', '''        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
''', '''        return reduce(lambda key, aliaser: aliaser.alias(key),
                      self.chain, key)
'''), ('behaviors/alias.py', '''        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
''', '''        return reduce(lambda key, aliaser: aliaser.unalias(key),
                      reversed(self.chain), key)
'''), ('behaviors/alias.py', 'from odict import odict\n', 'from functools import reduce\nfrom odict import odict\n'))
# 74: chain by recursion
m(('behaviors/alias.py', '''        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
''', '''        return _apply('alias', self.chain, key)
'''), ('behaviors/alias.py', '''        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
''', '''        return _apply('unalias', reversed(self.chain), key)
'''), ('behaviors/alias.py', '''@implementer(IAliaser)
class AliaserChain''', '''def _apply(name, aliasers, key):
    for aliaser in aliasers:
        key = getattr(aliaser, name)(key)
    return key


@implementer(IAliaser)
class AliaserChain'''))
# 75: aliaser of a node by a null object
m(('behaviors/alias.py', '''        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
''', '''        unaliased_key = _aliaser(self).unalias(key)
        try:
            return _next(self, unaliased_key)
'''), ('behaviors/alias.py', '''        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key, val)
''', '''        unaliased_key = _aliaser(self).unalias(key)
        try:
            _next(self, unaliased_key, val)
'''), ('behaviors/alias.py', '''        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key)
''', '''        unaliased_key = _aliaser(self).unalias(key)
        try:
            _next(self, unaliased_key)
'''), ('behaviors/alias.py', '''                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
''', '''                yield _aliaser(self).alias(key)
'''), ('behaviors/alias.py', '''@implementer(IAlias)
''', '''class _NullAliaser(object):
    """Keys are used as they are.
    """

    def alias(self, key):
        return key

    unalias = alias


_null_aliaser = _NullAliaser()


def _aliaser(node):
    return _null_aliaser if node.aliaser is None else node.aliaser


@implementer(IAlias)
'''))
# 76: uuids collected with a stack instead of recursion
m(('behaviors/common.py', block('behaviors/common.py', '        if IUUIDAware.providedBy(node):\n            if override', None), '''        todo = [node]
        while todo:
            node = todo.pop()
            if IUUIDAware.providedBy(node):
                if override or not node.uuid:
                    node.uuid = self.uuid_factory()
            if recursiv:
                # non-Node values have no uuid and no children
                todo.extend(
                    child for child in node.values()
                    if INode.providedBy(child))
'''))
# 77: ancestors by recursion
m(('utils.py', '''    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
''', '''    if obj is None:
        return
    yield obj
    for parent in LocationIterator(getattr(obj, '__parent__', None)):
        yield parent
'''))
# 78: root and path by recursion of their own
m(('behaviors/nodify.py', '''        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
''', '''        node = self
        while getattr(node, '__parent__', None) is not None:
            node = node.__parent__
        return node
'''), ('behaviors/nodify.py', '''        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
''', '''        path = []
        node = self
        while node is not None:
            path.insert(0, node.name)
            node = getattr(node, '__parent__', None)
        return path
'''))
# 79: suppression counted per event
m(('behaviors/events.py', '''        self.suppress = 0
        self.events = list()
''', '''        self.events = list()

    @property
    def suppress(self):
        return self._suppress

    @suppress.setter
    def suppress(self, value):
        self._suppress = value

    _suppress = 0
'''))
# 80: suppression depth by a class level default
m(('behaviors/events.py', '''    def __init__(self):
        self.suppress = 0
        self.events = list()
''', '''    suppress = 0

    def __init__(self):
        self.events = list()
'''))
# 81: subscribers injected by a class based context manager
m(('behaviors/events.py', block('behaviors/events.py', '@contextmanager\ndef _subscribers', 'class EventAttribute'), '''class _subscribers(object):
    """Context manager to inject subscribers to ``Events.dispatch``.
    """

    def __init__(self, subscribers):
        self.subscribers = subscribers

    def __enter__(self):
        _attribute_subscribers.subscribers = self.subscribers

    def __exit__(self, *exc_info):
        pass


'''), ('behaviors/events.py', 'from contextlib import contextmanager\n', ''))
# 82: injected subscribers taken by a method of the thread local
m(('behaviors/events.py', '''        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
''', '''        attribute_subscribers = _attribute_subscribers.take()
'''), ('behaviors/events.py', '''    """Injected subscribers, initialized in every thread.
    """

    def __init__(self):
        self.subscribers = list()
''', '''    """Injected subscribers, initialized in every thread.
    """

    def __init__(self):
        self.take()

    def take(self):
        subscribers = getattr(self, 'subscribers', None)
        self.subscribers = list()
        return subscribers
'''))
# 82: subscribers called by one loop over a chain
m(('behaviors/events.py', '''        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
''', '''        def call(subscribers, *args):
            for subscriber in subscribers:
                subscriber(*args, **kw)

        call(attribute_subscribers, self, *args)
        # subscribers may be bound or unbound by the subscribers called
        call(tuple(self.__subscribers__.get(event, ())), *args)
'''))
# 83: locking by nested functions
m(('locking.py', block('locking.py', '    def _locktree_decorator', None), '''    @wraps(fn)
    def _locktree_decorator(self, *args, **kwargs):
        with ExitStack() as stack:
            stack.enter_context(TreeLock(self))
            return fn(self, *args, **kwargs)
    return _locktree_decorator
'''), ('locking.py', 'from threading import RLock\n', 'from contextlib import ExitStack\nfrom functools import wraps\nfrom threading import RLock\n'))
# 84: readers of values by a table
m(('serializer.py', '''        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
''', '''        if isinstance(data, STR_TYPE):
            for mark, read in _marks:
                if data.startswith(mark):
                    return read(data[len(mark):])
            return UNSET if data == '<UNSET>' else data
'''), ('serializer.py', 'class NodeDecoder(object):\n', '''# marks of values and functions reading what follows
_marks = (('<UUID>:', uuid.UUID),)


class NodeDecoder(object):
'''))
# 85: marks as constants shared by writers and readers
m(('serializer.py', "            return '<UNSET>'\n", "            return UNSET_MARK\n"),
  ('serializer.py', "            return '<UUID>:{}'.format(ob)\n", "            return UUID_MARK + str(ob)\n"),
  ('serializer.py', "data == '<UNSET>'", "data == UNSET_MARK"),
  ('serializer.py', '''            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
''', '''            if data.startswith(UUID_MARK):
                return uuid.UUID(data[len(UUID_MARK):])
'''), ('serializer.py', 'class NodeEncoder', '''UNSET_MARK = '<UNSET>'
UUID_MARK = '<UUID>:'


class NodeEncoder'''))
# 86: objects resolved by importlib
m(('serializer.py', block('serializer.py', "        components = name.split('.')", '    def node_factory'), '''        components = name.split('.')
        ob = import_module(components.pop(0))
        path = ob.__name__
        for comp in components:
            path = '{}.{}'.format(path, comp)
            if not hasattr(ob, comp):
                # module not imported yet
                import_module(path)
            ob = getattr(ob, comp)
        return ob

'''), ('serializer.py', 'from inspect import isclass\n', 'from importlib import import_module\nfrom inspect import isclass\n'))
# 87: attributes written by a comprehension
m(('serializer.py', '''    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
''', '''    data['attrs'] = {
        name: encoder.default(value) for name, value in node.attrs.items()
    }
'''), ('serializer.py', '''    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
''', '''    children = list(map(encoder.default, node.values()))
    if children:
        data.update(children=children)
'''), ('serializer.py', '''    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)''', '''    attrs = data.get('attrs') or {}
    node.attrs.update(
        (attr, decoder.decode(value)) for attr, value in attrs.items())'''))
# 88: uuid index: removed part by comprehension
m(('behaviors/reference.py', '''        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
''', '''        todel = getattr(self[key], '_to_delete', tuple)
        removed = {iuuid: self._index.pop(iuuid) for iuuid in todel()}
'''))
# 89: popping by an iterator
m(('behaviors/mapping.py', '''        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
''', '''        try:
            key = self.keys()[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        return key, self.pop(key)
'''), ('behaviors/mapping.py', '''        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
''', '''        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
'''))
# 90: update by chained pairs
m(('behaviors/mapping.py', '''        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
''', '''        for data in args + (kw,):
            pairs = iteritems(data) if hasattr(data, ITER_FUNC) else data
            for key, val in pairs:
                self[key] = val
'''))
# 92: uuid index as a mapping of its own
m(('behaviors/reference.py', block('behaviors/reference.py',
   '            keys = set(self._index.keys())', '            val._index = self._index\n            try'),
   '''            val_index = val._index
            self._index.join(val_index)
'''), ('behaviors/reference.py', '''        self._index = dict()
        self.uuid = uuid.uuid4()''', '''        self._index = _Index()
        self.uuid = uuid.uuid4()'''),
  ('behaviors/reference.py', '''            node._index = {int(node.uuid): node}
''', '''            node._index = _Index({int(node.uuid): node})
'''), ('behaviors/reference.py', '''        removed = dict()
''', '''        removed = _Index()
'''), ('behaviors/reference.py', '''@implementer(IReadMapping)
class NodeIndex''', '''class _Index(dict):
    """Nodes of a tree by uuid.
    """

    def join(self, other):
        """Take over nodes of another tree.
        """
        if not set(self).isdisjoint(other):
            raise ValueError('Node with uuid already exists')
        nodes = list(other.values())
        self.update(other)
        for node in nodes:
            node._index = self


@implementer(IReadMapping)
class NodeIndex'''), ('behaviors/reference.py', '            val._index = self._index\n', ''))
# 93: notification suppressed by a counter
m(('behaviors/lifecycle.py', '''        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
''', '''        self._notify_suppress += 1
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress -= 1
'''), ('behaviors/lifecycle.py', 'default(False)', 'default(0)'))
# 94: lock looked up when it is needed
m(('locking.py', block('locking.py', '    def __init__', '    def release'), '''    def __init__(self, node):
        self.lock = self._lock_of(node.root)

    @staticmethod
    def _lock_of(root):
        with _creation_lock:
            lock = getattr(root, '_treelock', None)
            if lock is None:
                root._treelock = lock = RLock()
        return lock

    def acquire(self):
        self.lock.acquire()

    def __enter__(self):
        self.acquire()

'''))
# 95: conditions of insertion as generator of errors
m(('behaviors/order.py', block('behaviors/order.py', '''        if node.name is None:
            raise''', None), '''        for error in self._insertionerrors(node):
            raise error

    @override
    def _insertionerrors(self, node):
        if node.name is None:
            yield ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node') and self.node(node.uuid) is not None:
            yield KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            yield KeyError('Given node name already contained in node.')
'''))
# 96: nodespaces as a mapping of its own
m(('behaviors/nodespace.py', '''            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
''', '''            self._nodespaces = _spaces(__children__=self)
'''), ('behaviors/nodespace.py', '''@implementer(INodespaces)
''', '''def _spaces(**nodespaces):
    return odict(nodespaces.items())


@implementer(INodespaces)
'''))
# 97: events of the class and the object by a generator
m(('behaviors/events.py', '''            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
''', '''            if not any(event in events for events in (
                    self.__events__, type(self).__events__)):
                raise UnknownEvent(event)
'''))
# 98: events suppressed counted
m(('behaviors/events.py', '''        for event in self.events:
            self.data.events.append(event)
        return''', '''        self.data.events += self.events
        return'''), ('behaviors/events.py', '''        for event in self.events:
            self.data.events.remove(event)
''', '''        list(map(self.data.events.remove, self.events))
'''))
# 99: events of a suppression normalized by a function
m(('behaviors/events.py', '''        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
''', '''        self.events = _as_list(events)
'''), ('behaviors/events.py', '''class suppress_events(object):''', '''def _as_list(value):
    return list(value) if type(value) in (list, tuple) else [value]


class suppress_events(object):'''))
# 100: cache read by get with marker
m(('behaviors/cache.py', '''        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
''', '''        child = cache.get(key, _missing)
        if child is _missing:
            cache[key] = child = _next(self, key)
        return child
'''), ('behaviors/cache.py', '''@implementer(ICache)
''', '''_missing = object()


@implementer(ICache)
'''))
# 101: evicting by methods of the behavior
m(('behaviors/cache.py', '''            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next''', '''            _evict(cache, key)
        else:
            _evict(cache, *_keys(cache))
        _next'''), ('behaviors/cache.py', '''def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
''', '''def _evict(cache, *keys):
    for key in keys:
        try:
            del cache[key]
        except KeyError:
            pass
'''))
# 102: keys snapshotted by a decorated generator
m(('behaviors/cache.py', '''        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
''', '''        for name in _concerned(self, key):
            del self[name]
'''), ('behaviors/cache.py', '''@implementer(IInvalidate)
class Invalidate(''', '''def _concerned(ob, key):
    """Keys to be invalidated.
    """
    return _keys(ob) if key is None else [key]


@implementer(IInvalidate)
class Invalidate('''))
# 103: children read or created by a chain of functions
m(('behaviors/common.py', '''        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
''', '''        try:
            return _next(self, key)
        except KeyError:
            return _create(self, key, self.factories[key])
'''), ('behaviors/common.py', '''@implementer(IChildFactory)
''', '''def _create(node, key, factory):
    node[key] = child = factory()
    return child


@implementer(IChildFactory)
'''))
# 104: read only operations by one function
m(('behaviors/common.py', '''    @finalize
    def __delitem__(self, key):
        raise NotImplementedError('read-only')
''', '''    __delitem__ = finalize(_read_only)
'''), ('behaviors/common.py', '''    @finalize
    def __setitem__(self, key, val):
        raise NotImplementedError('read-only')
''', '''    __setitem__ = finalize(_read_only)
'''), ('behaviors/common.py', '''@implementer(IFixedChildren)
''', '''def _read_only(self, key, val=None):
    raise NotImplementedError('read-only')


@implementer(IFixedChildren)
'''))
# 105: attributes told missing by a shared decorator
m(('behaviors/common.py', '''        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
''', '''        with missing_attribute(name):
            return self[name]
'''), ('behaviors/common.py', 'from node.utils import decode\n', 'from node.utils import decode\nfrom node.utils import missing_attribute\n'),
('utils.py', '''        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
''', '''        context = object.__getattribute__(self, 'context')
        with missing_attribute(name):
            return context[name]
'''), ('utils.py', '''@implementer(IAttributeAccess)
class AttributeAccess''', '''@contextmanager
def missing_attribute(name):
    """Missing keys are reported as missing attributes.
    """
    try:
        yield
    except KeyError:
        raise AttributeError(name)


@implementer(IAttributeAccess)
class AttributeAccess'''), ('utils.py', 'import logging\n', 'from contextlib import contextmanager\nimport logging\n'))


def one(i):
    out = []
    w = tempfile.mkdtemp(prefix='move-')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc', '.git'))
        for e in MOVES[i]:
            p = '%s/r/src/node/%s' % (w, e[0])
            if len(e) == 4:
                open(p, 'a').write(e[3])
                continue
            if e[1] is None:
                open(p, 'w').write(e[2])
                continue
            s = open(p).read()
            if e[1] not in s:
                return i, ['NO MATCH %s: %s' % (e[0], e[1])]
            s = s.replace(e[1], e[2])
            open(p, 'w').write(s)
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN, w + '/r/src', '-q', '-x',
             '-p', 'no:cacheprovider', '--timeout=20', '--deselect',
             'src/node/tests/test_testing.py::TestFullmapping::'
             'test___setitem__', 'src/node/tests'],
            cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, env=dict(
                os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                PYTHONPATH=w + '/r/src'))
        if r.returncode:
            out.append('TESTS FAIL: ' + ' | '.join(
                r.stdout.strip().splitlines()[-4:])[:600])
        fns = M.specs()
        for pid in sorted(fns):
            try:
                c = M.run(pid, fns[pid], Program(w + '/r/src'))
            except Exception as e:
                out.append('CRASH %s %s: %s' % (pid, type(e).__name__, e))
                continue
            new_, listed = M.report(c, pid)
            for u in sorted(set(c.undecided)):
                out.append('undecided %s %s' % (pid, u))
            for v in sorted(set(v.what for v in new_)):
                out.append('ALARM %s %s' % (pid, v))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, out


if __name__ == '__main__':
    from multiprocessing import Pool
    ids = [int(x) for x in sys.argv[1:]] or list(range(len(MOVES)))
    with Pool(8) as pool:
        for i, out in pool.imap(one, ids):
            print('--- %d %s%s' % (i, ' '.join(sorted(set(
                e[0] for e in MOVES[i]))), '' if out else ' quiet'))
            for o in out:
                print('   ', o[:260])
