"""Definitions of the planted bugs, see seed.py."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


# -- C01, C02, C03 ------------------------------------------------------------

seed('nodespaces-set-parent', 'C12', [('behaviors/nodespace.py', """\
            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
""", """\
            if val.__parent__ is None:
                val.__name__ = key
                val.__parent__ = self
            self.nodespaces[key] = val
""")], """
from node.base import OrderedNode
a, b = OrderedNode('a'), OrderedNode('b')
from node.base import AbstractNode
from node.behaviors import Adopt, Nodespaces, Nodify, OdictStorage
from node.behaviors import DefaultInit
from plumber import plumbing


@plumbing(Nodespaces, Adopt, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


a, b, ns = Node('a'), Node('b'), Node()
a['__ns__'] = ns
b['__ns__'] = ns
assert b['__ns__'].parent is b, ns.parent
""", 'a nodespace which was part of another node before',
     'a nodespace moved to another node still names the old one as parent')

# -- C04, C05 -----------------------------------------------------------------

seed('reference-todelete-stops', 'C05', [('behaviors/reference.py', """\
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
""", """\
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                break
""")], """
from node.behaviors import Adopt, DefaultInit, Nodify, OdictStorage, Reference
from plumber import plumbing


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


root = Node('root')
sub = root['sub'] = Node()
sub['plain'] = 'no node'
child = sub['child'] = Node()
assert root.node(child.uuid) is child
del root['sub']
assert root.node(child.uuid) is None, 'deleted node still indexed'
""", 'a deleted sub tree in which a plain value precedes a node',
     'nodes following a plain value stay in the index after deletion')

seed('reference-index-nodes-stops', 'C05', [('behaviors/reference.py', """\
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
""", """\
                # non-Node values are a dead end, no magic for them
                return
            self._index[uuid] = node
""")], """
from node.behaviors import Adopt, DefaultInit, Nodify, OdictStorage, Reference
from plumber import plumbing


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


root = Node('root')
sub = root['sub'] = Node()
sub['plain'] = 'no node'
child = sub['child'] = Node()
sub = root.detach('sub')
assert sub.node(child.uuid) is child, 'not indexed'
assert child.node(sub.uuid) is sub, 'index not shared'
""", 'a detached sub tree in which a plain value precedes a node',
     'nodes following a plain value are missing in the index of the '
     'detached tree')

seed('reference-uuid-keeps-old', 'C05', [('behaviors/reference.py', """\
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
""", """\
        if siuuid in self._index and self.__parent__ is None:
            del self._index[siuuid]
        self._index[iuuid] = self
""")], """
import uuid
from node.behaviors import Adopt, DefaultInit, Nodify, OdictStorage, Reference
from plumber import plumbing


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class Node(object):
    __parent__ = None


root = Node('root')
child = root['child'] = Node()
old = child.uuid
child.uuid = uuid.uuid4()
assert root.node(child.uuid) is child
assert root.node(old) is None, 'found by its former uuid'
""", 'changing the uuid of a node which is already in a tree',
     'the node is still found by its former uuid')

# -- C06, C07 -----------------------------------------------------------------

seed('insertlast-empty-name', 'C06', [('behaviors/order.py', """\
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """\
        refnode = self[keys[-1]]
        if refnode.name:
            self.insertafter(newnode, refnode)
        else:
            self.insertbefore(newnode, refnode)
""")], """
from node.base import Node
root = Node('root')
root['a'] = Node()
root[''] = Node()
root.insertlast(Node('b'))
assert list(root) == ['a', '', 'b'], list(root)
""", 'a last child with an empty name',
     'the node is inserted before the last child instead of after it')

# -- C09 ----------------------------------------------------------------------

# -- C10 ----------------------------------------------------------------------

seed('acquire-skips-empty', 'C10', [('behaviors/nodify.py', """\
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """\
            if (node.name is not None and
                    IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""")], """
from node.base import BaseNode
from zope.interface import Interface, alsoProvides


class IRoot(Interface):
    pass


root = BaseNode()
alsoProvides(root, IRoot)
child = root['child'] = BaseNode()
assert child.acquire(IRoot) is root
""", 'a root node without a name', 'a root without name is never acquired')

# -- C12 ----------------------------------------------------------------------

seed('nodespaces-del-falls-through', 'C12', [('behaviors/nodespace.py', """\
            del self.nodespaces[key]
            return
""", """\
            if self.nodespaces.pop(key, None) is not None:
                return
""")], """
from node.behaviors import Adopt, Nodespaces, Nodify, OdictStorage
from node.behaviors import DefaultInit
from plumber import plumbing


@plumbing(Adopt, Nodespaces, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


n = Node('n')
n.storage['__x__'] = Node()
try:
    del n['__x__']
except KeyError:
    pass
assert '__x__' in n.storage
""", 'a reserved key without nodespace which is also a key of the storage',
     'deleting a missing nodespace deletes a child')

# -- C14, C15 -----------------------------------------------------------------

seed('cache-key-text', 'C14', [('behaviors/cache.py', """\
        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """\
        cache = self.cache
        cache_key = str(key)
        try:
            return cache[cache_key]
        except KeyError:
            cache[cache_key] = _next(self, key)
        return cache[cache_key]
""")], """
from node.behaviors import Cache, DefaultInit, Nodify, DictStorage
from node.behaviors import Invalidate
from plumber import plumbing


@plumbing(Cache, Invalidate, DefaultInit, Nodify, DictStorage)
class Node(object):
    pass


n = Node()
n[1] = 'int'
n['1'] = 'text'
assert n[1] == 'int', n[1]
assert n['1'] == 'text', n['1']
""", 'keys which are no strings', 'values of different keys are mixed up')

seed('storage-invalidate-by-keys', 'C15', [('behaviors/cache.py', """\
            for key in _keys(storage):
                del storage[key]
""", """\
            for key in _keys(self):
                if key in storage:
                    del storage[key]
""")], """
from node.behaviors import VolatileStorageInvalidate, DefaultInit, Nodify
from node.behaviors import Alias, OdictStorage
from node.behaviors.alias import DictAliaser
from plumber import plumbing


@plumbing(Alias, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Node(object):
    aliaser = DictAliaser([('alias', 'real')])


n = Node()
n['alias'] = 1
assert list(n.storage) == ['real']
n.invalidate()
assert not list(n.storage), list(n.storage)
""", 'a node whose keys differ from those of its storage',
     'invalidating everything leaves children in the storage')

# -- C16 ----------------------------------------------------------------------

seed('alias-iter-stops', 'C16', [('behaviors/alias.py', """\
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
""", """\
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    break
""")], """
from node.behaviors import Alias, OdictStorage, Nodify
from node.behaviors.alias import DictAliaser
from node.behaviors import DefaultInit
from plumber import plumbing


@plumbing(Alias, DefaultInit, Nodify, OdictStorage)
class Node(object):
    aliaser = DictAliaser([('a', 'x'), ('b', 'z')])


n = Node()
n.storage['x'] = 1
n.storage['y'] = 2
n.storage['z'] = 3
assert list(n) == ['a', 'b'], list(n)
""", 'a key which is not listed before one which is',
     'keys following one the aliaser does not list are not iterated')

# -- C18 ----------------------------------------------------------------------

# -- C20 ----------------------------------------------------------------------

seed('lifecycle-added-parent', 'C20', [('behaviors/lifecycle.py', """\
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """\
        objectEventNotify(self.events['added'](val, newParent=val.__parent__,
                                               newName=key))
""")], """
import node.base
from node.behaviors import DefaultInit, Lifecycle, Nodify, OdictStorage
from node.events import NodeAddedEvent
from node.interfaces import INode
from plumber import plumbing
import zope.component


@plumbing(Lifecycle, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


seen = []


def handler(obj, event):
    seen.append(event)


zope.component.provideHandler(handler, [INode, node.interfaces.INodeAddedEvent])
import zope.component.event
root, child = Node('root'), Node('child')
root['child'] = child
assert len(seen) == 1
assert seen[0].newParent is root, seen[0].newParent
""", 'a node with life cycle events which does not adopt its children',
     'the added event does not name the new parent')

# -- C35 ----------------------------------------------------------------------

seed('instance-property-falsy', 'C35', [('utils.py', """\
        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """\
        try:
            value = object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = None
        if value is None:
            value = func(self)
            setattr(self, attribute_name, value)
        return value
""")], """
from node.utils import instance_property
calls = []


class Thing(object):

    @instance_property
    def prop(self):
        calls.append(1)
        return None


t = Thing()
t.prop
t.prop
assert len(calls) == 1, calls
""", 'a property computed to None', 'the property is computed again')

# -- second series ------------------------------------------------------------

seed('node-validate-late', 'C03', [('base.py', """\
@plumbing(
    NodeChildValidate,
    Nodespaces,
    Adopt,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode(object):
""", """\
@plumbing(
    Nodespaces,
    NodeChildValidate,
    Adopt,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode(object):
""")], """
from node.base import AttributedNode


class Some(object):
    pass


node = AttributedNode('node')
try:
    node['__some__'] = Some
except ValueError:
    pass
else:
    raise AssertionError('a class was accepted')
assert '__some__' not in node.nodespaces
""", 'a class stored under a reserved key of an attributed node',
     'classes are accepted as nodespaces without being refused')

seed('pop-default-none', 'C09', [('behaviors/mapping.py', """\
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """\
        except KeyError:
            if not default and default != 0:
                raise
            val = default
        return val
""")], """
from node.base import OrderedNode

node = OrderedNode('node')
marker = object()
assert node.pop('missing', marker) is marker
assert node.pop('missing', None) is None
assert node.pop('missing', '') == ''
""", 'popping a missing child with an empty default like None or a text',
     'popping with default None raises for a missing child')

seed('codec-sequence-type', 'C18', [('utils.py', """\
        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
""", """\
        if isinstance(arg, list):
            arg = list(map(self.decode, arg))
        elif isinstance(arg, tuple):
            arg = tuple(map(self.decode, arg))
""")], """
from node.utils import StrCodec


class Path(list):
    pass


codec = StrCodec()
assert type(codec.encode(Path([u'a']))) is Path
res = codec.decode([Path([b'a', (b'b', )])])
assert res == [['a', ('b', )]]
assert type(res[0]) is Path, type(res[0])
""", 'a sequence of a class derived from list or tuple',
     'decoding turns derived sequences into plain ones')

seed('lifecycle-removed-name', 'C20', [('behaviors/lifecycle.py', """\
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """\
        objectEventNotify(self.events['removed'](
            delnode, oldParent=self,
            oldName=getattr(delnode, '__name__', None) or key))
""")], """
from node.behaviors import Adopt, DefaultInit, Lifecycle, Nodify
from node.behaviors import OdictStorage
from node.events import NodeRemovedEvent
from plumber import plumbing
from zope.component.event import objectEventNotify
import zope.component


@plumbing(Adopt, Lifecycle, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


events = list()
zope.component.provideHandler(
    lambda ob, ev: events.append(ev),
    (zope.interface.Interface, zope.interface.implementedBy(
        NodeRemovedEvent)))
root = Node('root')
child = root['key'] = Node()
child.__name__ = 'renamed'
del root['key']
assert [e.oldName for e in events if isinstance(e, NodeRemovedEvent)] \\
    == ['key'], [e.oldName for e in events]
""", 'a child renamed between adding and removing it',
     'the removed event names the child by its current name instead of the '
     'key it was removed from')

seed('bind-by-identity', 'C22', [('behaviors/events.py', """\
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """\
            if not any(known is subscriber for known in subscribers):
                subscribers.append(subscriber)
""")], """
from node.behaviors import Events
from plumber import plumbing


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['event']


class Listener(object):

    def __init__(self):
        self.got = list()

    def on_event(self, value):
        self.got.append(value)


dispatcher = Dispatcher()
listener = Listener()
dispatcher.bind(event=listener.on_event)
dispatcher.bind(event=listener.on_event)
dispatcher.dispatch('event', 1)
assert listener.got == [1], listener.got
dispatcher.unbind(event='event', subscriber=listener.on_event)
dispatcher.dispatch('event', 2)
assert listener.got == [1], listener.got
""", 'a bound method which is bound twice, a new object each time',
     'a method bound twice is called twice')

seed('suppress-leave-error', 'C24', [('behaviors/events.py', """\
    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """\
    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
        if type_ is None or self.data.suppress == 0:
            for event in self.events:
                self.data.events.remove(event)
""")], """
from node.behaviors import Events, suppress_events
from plumber import plumbing


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['a', 'b']


got = list()
dispatcher = Dispatcher()
dispatcher.bind(a=lambda: got.append('a'), b=lambda: got.append('b'))
with suppress_events('a'):
    try:
        with suppress_events('b'):
            raise RuntimeError('inner')
    except RuntimeError:
        pass
    dispatcher.dispatch('b')
    dispatcher.dispatch('a')
assert got == ['b'], got
""", 'a nested suppression which is left by an error while an outer one is '
     'in effect',
     'events of the inner suppression stay suppressed')

seed('fallback-falsy-value', 'C26', [('behaviors/fallback.py', """\
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
""", """\
        new_current = current.get(name, _marker)
        if not new_current:
            return _to_root(current, path=path, visited=visited)
""")], """
from node.base import BaseNode
from node.behaviors import Adopt, DefaultInit, Fallback, Nodify
from node.behaviors import OdictStorage
from plumber import plumbing


@plumbing(Adopt, Fallback, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


@plumbing(Adopt, Fallback, DefaultInit, Nodify, OdictStorage)
class Root(object):
    fallback_key = 'default'


root = Root('root')
root['default'] = Node()
root['default']['count'] = 0
root['default']['label'] = 'text'
root['other'] = Node()
assert root['other']['label'] == 'text'
assert root['other']['count'] == 0
""", 'a fallback value which is no node and false, like 0 or an empty text',
     'falsy fallback values are reported as missing')

seed('serialize-attrs-none', 'C29', [('serializer.py', """\
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """\
    for name, child in node.attrs.items():
        if child is not None:
            attrs[name] = encoder.default(child)
""")], """
from node.base import AttributedNode
from node.serializer import deserialize, serialize

node = AttributedNode('node')
node.attrs['a'] = 'text'
node.attrs['b'] = None
res = deserialize(serialize(node))
assert res.attrs['a'] == 'text'
assert sorted(res.attrs.keys()) == ['a', 'b'], res.attrs.keys()
assert res.attrs['b'] is None
""", 'an attribute with value None',
     'attributes with value None get lost when serializing')

seed('attribute-access-errors', 'C31', [('utils.py', """\
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
""", """\
        try:
            return context[name]
        except LookupError:
            raise AttributeError(name)
""")], """
from node.utils import AttributeAccess


class Broken(object):

    def __getitem__(self, key):
        if key == 'known':
            return 1
        if key == 'broken':
            raise IndexError('corrupt data')
        raise KeyError(key)


access = AttributeAccess(Broken())
assert access.known == 1
assert not hasattr(access, 'missing')
try:
    access.broken
except IndexError:
    pass
""", 'a wrapped object failing with another lookup error than KeyError',
     'other errors of the wrapped object show up as missing attribute')

seed('reverse-get-falsy', 'C32', [('utils.py', """\
    def get(self, value, default=None):
        try:
            return self[value]
        except KeyError:
            return default
""", """\
    def get(self, value, default=None):
        try:
            return self[value] or default
        except KeyError:
            return default
""")], """
from node.utils import ReverseMapping

mapping = ReverseMapping({0: 'zero', 1: 'one', '': 'empty'})
assert mapping.get('one') == 1
assert mapping.get('zero', 5) == 0, mapping.get('zero', 5)
assert mapping.get('empty') == ''
assert mapping.get('missing', 5) == 5
""", 'a value stored under a falsy key', 'the default is returned for values '
     'stored under falsy keys')

seed('treerepr-sort-lower', 'C34', [('behaviors/nodify.py', """\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
""", """\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[1]))
""")], """
from node.base import BaseNode

node = BaseNode('node')
node.allow_non_node_childs = True
node['a'] = 'z'
node['b'] = 'y'
node['c'] = 'x'
lines = node.treerepr().strip().splitlines()
assert [l.split(':')[0].strip() for l in lines[1:]] == ['a', 'b', 'c'], lines
""", 'an unordered node with values which sort in another order than their '
     'keys', 'children of unordered nodes are sorted by value')

seed('debug-empty-result', 'C35', [('utils.py', """\
        return f_result
    wrapped""", """\
        return f_result or None
    wrapped""")], """
from node.utils import debug


@debug
def count(items):
    return len(items)


assert count([1]) == 1
assert count([]) == 0, count([])
""", 'a decorated function returning an empty or falsy result',
     'falsy results of decorated functions become None')

seed('nodes-false-if-empty', 'C41', [('behaviors/nodify.py', """\
    __bool__ = default(__nonzero__)
""", "")], """
from node.base import AttributedNode, OrderedNode

assert OrderedNode('node')
assert AttributedNode('node').attrs
""", 'testing the truth of a node without children',
     'empty nodes are false')

seed('attribute-changed-identity', 'C23', [('behaviors/events.py', """\
        if self.always_dispatch or value != old_value:
""", """\
        if self.always_dispatch or value is not old_value:
""")], """
from node.behaviors import EventAttribute, Events
from plumber import plumbing


@plumbing(Events)
class Dispatcher(object):
    attr = EventAttribute()


got = list()
dispatcher = Dispatcher()
dispatcher.bind(attr=got.append)
dispatcher.attr = [1, 2]
dispatcher.attr = [1, 2]
assert got == [[1, 2]], got
""", 'setting a value which is equal to, but not the same as the old one',
     'events are announced though the value did not change')

seed('locktree-release-errors', 'C27', [('locking.py', """\
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """\
        try:
            result = fn(self, *args, **kwargs)
        except (KeyError, ValueError, AttributeError):
            lock.release()
            raise
        lock.release()
        return result
""")], """
from node.base import BaseNode
from node.locking import TreeLock, locktree
import threading


class Node(BaseNode):

    @locktree
    def fail(self):
        raise ZeroDivisionError()


node = Node('node')
try:
    node.fail()
except ZeroDivisionError:
    pass
got = list()
lock = TreeLock(node)


def other():
    got.append(lock.lock.acquire(timeout=2))
    if got[0]:
        lock.lock.release()


t = threading.Thread(target=other)
t.start()
t.join()
assert got == [True], 'still locked'
""", 'a locked method failing with an error of another kind than expected',
     'the lock is never released again')


# -- properties without a bug so far ------------------------------------------

seed('detached-event-parent', 'C20', [('events.py', """\
class NodeDetachedEvent(ObjectRemovedEvent):
    pass
""", """\
class NodeDetachedEvent(ObjectRemovedEvent):

    def __init__(self, object, oldParent=None, oldName=None):
        super(NodeDetachedEvent, self).__init__(object, oldName=oldName)
""")], """
from node.behaviors import Adopt, DefaultInit, Lifecycle, Nodify, OdictStorage
from node.events import NodeDetachedEvent
from plumber import plumbing
import zope.component


@plumbing(Adopt, Lifecycle, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


got = []


@zope.component.adapter(Node, NodeDetachedEvent)
def handler(node, event):
    got.append(event)


zope.component.provideHandler(handler)
a, b, c = Node('a'), Node('b'), Node('c')
a['x'] = c
# the node meanwhile names another parent
b['x'] = c
a.detach('x')
assert got[0].oldParent is a, got[0].oldParent
""", 'detaching a node which was stored in another parent as well',
     'the detached event names the parent of the node instead of the one it '
     'was detached from')

seed('values-unique', 'C08', [('behaviors/mapping.py', """\
        return [self[key] for key in self]
""", """\
        res = list()
        for key in self:
            if self[key] not in res:
                res.append(self[key])
        return res
""")], """
from node.behaviors import FullMapping, OdictStorage
from plumber import plumbing


@plumbing(FullMapping, OdictStorage)
class Mapping(object):
    pass


m = Mapping()
m['a'] = 1
m['b'] = 1
assert m.values() == [1, 1], m.values()
""", 'two keys with equal values', 'values lists equal values only once')

seed('storage-iter-none', 'C07', [('behaviors/storage.py', """\
        return self.storage.__iter__()
""", """\
        return iter([key for key in self.storage if key is not None])
""")], """
from node.base import BaseNode
n = BaseNode()
n[None] = BaseNode()
assert list(n) == [None], list(n)
""", 'None as key', 'children stored under the key None are not iterated')

seed('deepcopy-non-nodes', 'C11', [('behaviors/common.py', """\
        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
""", """\
        if not IUUIDAware.providedBy(node):
            return
        if override or not node.uuid:
            node.uuid = self.uuid_factory()
        if recursiv:
""")], """
from node.behaviors import (Adopt, DefaultInit, Nodify, OdictStorage,
                            UUIDAware)
from node.base import OrderedNode
from plumber import plumbing


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


root = Node('root')
root['folder'] = OrderedNode()
leaf = root['folder']['leaf'] = Node()
copied = root.deepcopy()
assert copied['folder']['leaf'].uuid != leaf.uuid
""", 'a uuid aware node below a node which is not',
     'nodes below ones without uuid keep the uuid of the original')

seed('prefix-idempotent', 'C17', [('behaviors/alias.py', """\
        return (self.prefix or '') + key
""", """\
        prefix = self.prefix or ''
        if prefix and key.startswith(prefix):
            return key
        return prefix + key
""")], """
from node.behaviors.alias import PrefixAliaser
a = PrefixAliaser('pre-')
assert a.unalias(a.alias('pre-x')) == 'pre-x', a.unalias(a.alias('pre-x'))
""", 'a key which starts with the prefix itself',
     'keys starting with the prefix are not translated, but translated back')

seed('attributes-modified-same', 'C21', [('behaviors/lifecycle.py', """\
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """\
        changed = self.get(key, self) is not val
        _next(self, key, val)
        if self.__parent__._notify_suppress or not changed:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""")], """
from node.behaviors import (Adopt, Attributes, AttributesLifecycle,
                            DefaultInit, Lifecycle, NodeAttributes, Nodespaces,
                            Nodify, OdictStorage)
from node.events import NodeModifiedEvent
from plumber import plumbing
import zope.component


@plumbing(AttributesLifecycle)
class Attrs(NodeAttributes):
    pass


@plumbing(Nodespaces, Adopt, Attributes, Lifecycle, DefaultInit, Nodify,
          OdictStorage)
class Node(object):
    attributes_factory = Attrs


got = []


@zope.component.adapter(Node, NodeModifiedEvent)
def handler(node, event):
    got.append(event)


zope.component.provideHandler(handler)
n = Node()
value = []
n.attrs['x'] = value
value.append(1)
n.attrs['x'] = value
assert len(got) == 2, got
""", 'an attribute value which is changed in place and then set again',
     'no event is sent for an attribute set to the object it has already')


seed('attrs-created-again', 'C13', [('behaviors/attributes.py', """\
        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
""", """\
        attrs = self.nodespaces.get('__attrs__')
        if not attrs:
            attrs = self.nodespaces['__attrs__'] = \\
""")], """
from node.base import AttributedNode
from odict import odict


class Node(AttributedNode):

    def attributes_factory(self, name=None, parent=None):
        return odict()


n = Node()
attrs = n.attrs
attrs['a'] = 1
assert n.attrs.get('a') == 1
del attrs['a']
assert n.attrs is attrs
""", 'an attributes factory whose container is false while empty',
     'attributes are created again whenever they are empty')

seed('unicode-decodes-read', 'C19', [('behaviors/common.py', """\
            key = decode(key)
        return _next(self, key)

    @plumb
    def __setitem__""", """\
            key = decode(key)
        value = _next(self, key)
        if isinstance(value, (bytes, list, tuple, dict)):
            value = decode(value)
        return value

    @plumb
    def __setitem__""")], """
from node.behaviors import (DefaultInit, Nodify, OdictStorage, UnicodeAware)
from plumber import plumbing


@plumbing(UnicodeAware, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


n = Node()
value = n['a'] = [1]
assert n['a'] is value, n['a']
""", 'lists, dicts or nodes as values', 'values read are copies')

seed('decode-list-none', 'C28', [('serializer.py', """\
            return [self.decode(it, parent=parent) for it in data]
""", """\
            return [self.decode(it, parent=parent) for it in data
                    if it is not None]
""")], """
from node.serializer import deserialize
assert deserialize('[1, null, 2]') == [1, None, 2]
""", 'a list with None in it', 'elements which are None get lost')

seed('factory-falsy-child', 'C30', [('behaviors/common.py', """\
        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """\
        try:
            child = _next(self, key)
        except KeyError:
            child = None
        if child:
            return child
        child = self[key] = self.factories[key]()
        return child
""")], """
from node.behaviors import (Adopt, ChildFactory, DefaultInit, Nodify,
                            OdictStorage)
from plumber import plumbing


@plumbing(Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage)
class Node(object):
    factories = {'items': list}


n = Node()
first = n['items']
assert n['items'] is first
""", 'a factory whose children are false while empty',
     'empty children are created again whenever they are read')

seed('has-key-override', 'C40', [('behaviors/mapping.py', """\
    @default
    def has_key(self, key):
""", """\
    @override
    def has_key(self, key):
"""), ('behaviors/mapping.py', """\
from plumber import default
""", """\
from plumber import default
from plumber import override
""")], """
from node.behaviors import DefaultInit, Nodify, OdictStorage
from plumber import plumbing


class Base(object):

    def has_key(self, key):
        return 'own'


@plumbing(DefaultInit, Nodify, OdictStorage)
class Node(Base):
    pass


assert Node().has_key('x') == 'own', Node().has_key('x')
""", 'a base class which defines has_key itself',
     'what a base class defines is replaced by the behavior')

seed('fixed-children-name', 'C01', [('behaviors/common.py', """\
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """\
            if getattr(child, '__parent__', None) is not self:
                child.__name__ = key
                child.__parent__ = self
            self._children[key] = child
""")], """
from node.base import BaseNode
from node.behaviors import DefaultInit, FixedChildren, Nodify
from plumber import plumbing

shared = BaseNode()


@plumbing(FixedChildren, DefaultInit, Nodify)
class Node(object):
    fixed_children_factories = (('a', BaseNode),)


class Other(Node):
    pass


n = Other.__new__(Other)
n.fixed_children_factories = (
    ('a', lambda: BaseNode(name='own', parent=n)),
)
n.__init__()
assert n['a'].name == 'a', n['a'].name
""", 'a factory which knows the parent already, but not the key',
     'fixed children keep the name their factory gave them')

seed('adopt-restore-same', 'C02', [('behaviors/common.py', """\
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """\
            if old_parent is not self:
                val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""")], """
from node.behaviors import Adopt, DefaultInit, Nodify, OdictStorage
from plumber import Behavior, plumb, plumbing


class Refuse(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        if key == 'b':
            raise ValueError(key)
        _next(self, key, val)


@plumbing(Adopt, Refuse, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


root, child = Node('root'), Node()
root['a'] = child
try:
    root['b'] = child
except ValueError:
    pass
assert child.name == 'a', child.name
""", 'a child of the very node which refuses it under another key',
     'a node refused under a second key keeps that key as name')

seed('uuid-arguments', 'C33', [('behaviors/common.py', """\
    def set_uuid_for(self, node, override=False, recursiv=False):
""", """\
    def set_uuid_for(self, node, recursiv=False, override=False):
"""), ('behaviors/common.py', """\
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
""", """\
        self.set_uuid_for(copied, self.overwrite_recursiv_on_copy, True)
""")], """
from node.behaviors import (Adopt, DefaultInit, Nodify, OdictStorage,
                            UUIDAware)
from plumber import plumbing


@plumbing(Adopt, UUIDAware, DefaultInit, Nodify, OdictStorage)
class Node(object):
    pass


n = Node()
uuid = n.uuid
n.set_uuid_for(n, True)
assert n.uuid != uuid, 'uuid not overridden'
""", 'options of set_uuid_for given by position',
     'override and recursiv have another order than IUUIDAware promises')

seed('path-stops-unnamed', 'C10', [('behaviors/nodify.py', """\
        path = [parent.name for parent in LocationIterator(self)]
""", """\
        path = []
        for parent in LocationIterator(self):
            if path and parent.name is None and parent.parent is not None:
                # not yet placed below its parent
                break
            path.append(parent.name)
""")], """
from node.base import BaseNode


root, mid, leaf = BaseNode('root'), BaseNode(), BaseNode('leaf')
mid.__parent__ = root
leaf.__parent__ = mid
assert leaf.path == ['root', None, 'leaf'], leaf.path
assert len(leaf.path) == 3 and leaf.root is root
""", 'a node below an unnamed node which has a parent',
     'path ends at an unnamed ancestor though root goes on')

seed('unbind-declared-only', 'C22', [('behaviors/events.py', """\
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""", """\
            for name in self.__events__:
                subscribers = self.__subscribers__.get(name, ())
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""")], """
from node.behaviors import Events
from plumber import plumbing


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['declared']


got = []
subscriber = got.append
d = Dispatcher()
d.register_event('registered')
d.bind(declared=subscriber, registered=subscriber)
d.unbind(subscriber=subscriber)
d.dispatch('registered', 1)
d.dispatch('declared', 2)
assert got == [], got
""", 'a subscriber of an event declared by the class, unbound from all events',
     'unbinding a subscriber leaves it bound to events of the class')
