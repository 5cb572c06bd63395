"""More behaviour preserving rewrites, of several functions at once."""
REFACTORINGS5 = []


def R(rel, *edits):
    REFACTORINGS5.append((rel, tuple(
        (edits[i], edits[i + 1]) for i in range(0, len(edits), 2))))


C = 'behaviors/common.py'
# adopt with a helper class remembering the location
R(C, """@implementer(IAdopt)
class Adopt(Behavior):
""", """class _Location(object):

    def __init__(self, node):
        self.node = node
        self.name = node.__name__
        self.parent = node.__parent__

    def restore(self):
        self.node.__name__ = self.name
        self.node.__parent__ = self.parent


@implementer(IAdopt)
class Adopt(Behavior):
""", """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        location = _Location(val)
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            location.restore()
            raise
""")
# context manager of its own
R(C, """@implementer(IAdopt)
class Adopt(Behavior):
""", """class _moved(object):
    def __init__(self, node, name, parent):
        self.node = node
        self.new = (name, parent)

    def __enter__(self):
        self.old = (self.node.__name__, self.node.__parent__)
        self.node.__name__, self.node.__parent__ = self.new

    def __exit__(self, exc_type, exc, tb):
        if exc_type is not None and issubclass(exc_type, Exception):
            self.node.__name__, self.node.__parent__ = self.old
        return False


@implementer(IAdopt)
class Adopt(Behavior):
""", """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        with _moved(val, key, self):
            _next(self, key, val)
""")
R(C, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        old = {attr: getattr(val, attr) for attr in ('__name__', '__parent__')}
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            for attr, value in old.items():
                setattr(val, attr, value)
            raise
""")
R(C, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            child = self[key]
        except KeyError:
            child = self[key] = default
        return child
""", """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
        child = factory()
        self[key] = child
        return child
""", """        return self.factories.__iter__()
""", """        for key in self.factories:
            yield key
""")
R(C, """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children = odict(self._create_fixed_children())

    @default
    def _create_fixed_children(self):
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__, child.__parent__ = key, self
            yield key, child
""")
R(C, """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = odict()
        for definition in self.fixed_children_factories:
            key = definition[0]
            children[key] = definition[1]()
            children[key].__name__ = key
            children[key].__parent__ = self
        self._children = children
""")
R(C, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        error = None
        if not self.allow_non_node_childs:
            if inspect.isclass(val):
                error = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                error = 'Non-node childs are not allowed.'
        if error is not None:
            raise ValueError(error)
        _next(self, key, val)
""")
R(C, """@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""", """def _decoded(*values):
    return tuple(decode(v) if isinstance(v, bytes) else v for v in values)


@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""", """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = _decoded(key, val)
        return _next(self, key, val)
""")
R(C, """@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""", """def _decodes_args(func):
    def wrapper(_next, self, *args):
        return func(_next, self, *[
            decode(arg) if isinstance(arg, bytes) else arg for arg in args])
    return wrapper


@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""", """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        return _decodes_args(lambda n, s, k, v: n(s, k, v))(
            _next, self, key, val)
""")
R(C, """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        has_uuid = IUUIDAware.providedBy(node)
        if has_uuid and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        children = [c for c in node.values() if INode.providedBy(c)]
        for child in children:
            self.set_uuid_for(child, override=override, recursiv=recursiv)
""", """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied
""", """        copied = _next(self)
        self.set_uuid_for(
            copied,
            override=True,
            recursiv=self.overwrite_recursiv_on_copy
        )
        return copied
""")
N = 'behaviors/nodify.py'
R(N, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        names = []
        node = self
        while node is not None:
            names.insert(0, node.name)
            node = node.__parent__
        return names
""", """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        node = self
        while node.__parent__ is not None:
            node = node.__parent__
        return node
""")
R(N, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        return [node.name for node in reversed(list(LocationIterator(self)))]
""", """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
""", """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        def matches(node):
            if IInterface.providedBy(interface) and interface.providedBy(node):
                return True
            return isinstance(node, interface)

        parents = LocationIterator(self)
        next(parents)
        return next((node for node in parents if matches(node)), None)
""")
R(N, """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        node = self.parent
        while True:
            if node is None:
                return None
            provided = IInterface.providedBy(interface) \\
                and interface.providedBy(node)
            if provided or isinstance(node, interface):
                break
            node = node.parent
        return node
""", """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        return (val for val in self.itervalues() if interface.providedBy(val))
""", """        return [val for val in self.filtereditervalues(interface)]
""", """        return list(self.filtereditervalues(interface))
""")
R(N, """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        lines = [indent * prefix + str(self.noderepr) + '\\n']
        items = list(self.items())
        if not IOrdered.providedBy(self):
            items.sort(key=lambda item: UNICODE_TYPE(item[0]))
        child_indent = indent + 2
        for key, value in items:
            if INode.providedBy(value):
                line = value.treerepr(indent=child_indent, prefix=prefix)
            else:
                line = '{}{}: {!r}\\n'.format(child_indent * prefix, key, value)
            lines.append(line)
        return ''.join(lines)
""")
R(N, """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        def child_repr(key, value, indent):
            if INode.providedBy(value):
                return value.treerepr(indent=indent, prefix=prefix)
            return f'{indent * prefix}{key}: {value!r}\\n'

        keys = self.keys()
        if not IOrdered.providedBy(self):
            keys = sorted(keys, key=UNICODE_TYPE)
        return f'{indent * prefix}{self.noderepr}\\n' + ''.join(
            child_repr(key, self[key], indent + 2) for key in keys)
""", """        class_name = self.__class__.__name__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )
""", """        name = self.name
        if IS_PY2 and isinstance(name, unicode):
            name = name.encode('ascii', 'replace')
        return "<%s object '%s' at %s>" % (
            type(self).__name__, str(name), hex(id(self))[:-1])
""")
F = 'behaviors/reference.py'
R(F, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
        _next(self, key, val)
""", """            old_index = val._index
            if any(iuuid in self._index for iuuid in old_index):
                raise ValueError('Node with uuid already exists')
            for iuuid, node in list(old_index.items()):
                self._index[iuuid] = node
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid in old_index:
                    self._index.pop(iuuid)._index = old_index
                val._index = old_index
                raise
        else:
            _next(self, key, val)
""")
R(F, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
        _next(self, key, val)
""", """            index = self._index
            val_index = val._index
            if not index.keys().isdisjoint(val_index.keys()):
                raise ValueError('Node with uuid already exists')
            self._merge(val, val_index, index)
            try:
                _next(self, key, val)
            except Exception:
                self._unmerge(val, val_index, index)
                raise
            return
        _next(self, key, val)

    @default
    def _merge(self, val, val_index, index):
        index.update(val_index)
        for node in val_index.values():
            node._index = index
        val._index = index

    @default
    def _unmerge(self, val, val_index, index):
        for iuuid, node in val_index.items():
            del index[iuuid]
            node._index = val_index
        val._index = val_index
""")
R(F, """        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """        collect = getattr(todel, '_to_delete', None)
        removed = {}
        if collect is not None:
            removed = {iuuid: self._index.pop(iuuid) for iuuid in collect()}
""", """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        def as_int(value):
            return None if value is None else int(value)

        index = self._index
        new, old = as_int(uuid), as_int(self._uuid)
        if index.get(new, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        index.pop(old, None)
        index[new] = self
        self._uuid = uuid
""", """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        uuids = [int(self.uuid)]
        for key in self:
            try:
                below = self[key]._to_delete()
            except AttributeError:
                below = []
            uuids.extend(below)
        return uuids
""")
R(F, """        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node
""", """        if not hasattr(node, '_index_nodes'):
            return node
        index = dict()
        index[int(node.uuid)] = node
        node._index = index
        node._index_nodes()
        return node
""", """        for node in self.values():
            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """        index = self._index
        for child in self.values():
            try:
                iuuid = int(child.uuid)
            except AttributeError:
                pass
            else:
                index[iuuid] = child
                child._index = index
                child._index_nodes()
""")
O = 'behaviors/order.py'
R(O, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        self._insert_at_end(newnode, 0, self.insertbefore)
""", """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        self._insert_at_end(newnode, -1, self.insertafter)

    @override
    def _insert_at_end(self, newnode, position, insert):
        keys = self.keys()
        if keys:
            insert(newnode, self[keys[position]])
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""", """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert('insertbefore', newnode, refnode)
""", """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert('insertafter', newnode, refnode)

    @override
    def _insert(self, method, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            getattr(self.storage, method)(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
R(O, """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        name = node.name
        if name is None:
            raise ValueError('Given node has no __name__ set.')
        lookup = getattr(self, 'node', None)
        if lookup is not None and lookup(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        try:
            self[newnode.name] = newnode
        except Exception:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise
""", """        name = newnode.name
        try:
            self[name] = newnode
        except Exception:
            self.storage.pop(name)
            raise
""")
S = 'behaviors/nodespace.py'
COND = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
"""
R(S, """@implementer(INodespaces)
class Nodespaces(Behavior):
""", """def is_reserved(key):
    \"\"\"Whether key addresses a nodespace.\"\"\"
    if not isinstance(key, STR_TYPE):
        return False
    return key.startswith('__') and key.endswith('__')


@implementer(INodespaces)
class Nodespaces(Behavior):
""", COND, """        if is_reserved(key):
""")
R(S, COND, """        if isinstance(key, STR_TYPE) and key[:2] == '__' == key[-2:]:
""", """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is None:
            nodespaces = self._nodespaces = odict([('__children__', self)])
        return nodespaces
""")
R(S, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """            self._set_nodespace(key, val)
        else:
            _next(self, key, val)

    @finalize
    def _set_nodespace(self, name, node):
        node.__name__ = name
        node.__parent__ = self
        self.nodespaces[name] = node
""", """            del self.nodespaces[key]
            return
        _next(self, key)
""", """            self.nodespaces.pop(key)
        else:
            _next(self, key)
""")
K = 'behaviors/cache.py'
R(K, """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key not in cache:
            value = _next(self, key)
            cache[key] = value
            return value
        return cache[key]
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicting(self, key):
            _next(self, key, value)
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicting(self, key):
            _next(self, key)
""", """@implementer(ICache)
class Cache(Behavior):
""", """class _evicting(object):

    def __init__(self, node, key):
        self.node = node
        self.key = key

    def __enter__(self):
        _evict(self.node.cache, self.key)

    def __exit__(self, *exc_info):
        _evict(self.node.cache, self.key)


@implementer(ICache)
class Cache(Behavior):
""")
R(K, """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        storage = self.storage
        if key is None:
            for key in _keys(storage):
                del storage[key]
            return
        if key not in _keys(self):
            raise KeyError(key)
        # key may be valid, but not on storage right now
        _evict(storage, key)
""", """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        cache = self.cache
        for cached_key in (_keys(cache) if key is None else [key]):
            _evict(cache, cached_key)
        _next(self, key=key)
""")
L = 'behaviors/lifecycle.py'
R(L, """@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """def _notify(node, event, *args, **kw):
    if not node._notify_suppress:
        objectEventNotify(node.events[event](*args, **kw))


@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _notify(self, 'added', val, newParent=self, newName=key)
""", """        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        _notify(self, 'removed', delnode, oldParent=self, oldName=key)
""", """        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _notify(self.__parent__, 'modified', self.__parent__)
""")
R(L, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        with _suppressed(self):
            node = _next(self, key)
        objectEventNotify""", """@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """@contextlib.contextmanager
def _suppressed(node):
    before = node._notify_suppress
    node._notify_suppress = True
    try:
        yield node
    finally:
        node._notify_suppress = before


@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """from plumber import Behavior
""", """from plumber import Behavior
import contextlib
""")
V = 'behaviors/events.py'
R(V, """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if event is None:
            if subscriber is None:
                self.__subscribers__ = {}
                return
            affected = list(self.__subscribers__.values())
        elif subscriber is None:
            self.__subscribers__.pop(event, None)
            return
        else:
            affected = [self.__subscribers__.get(event, [])]
        for subscribers in affected:
            try:
                subscribers.remove(subscriber)
            except ValueError:
                pass
""")
R(V, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = []
        if _is_suppressed(event):
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        for subscriber in tuple(self.__subscribers__.get(event, ())):
            subscriber(*args, **kw)
""", """class UnknownEvent(ValueError):
""", """def _is_suppressed(event):
    data = suppress_events.data
    return data.suppress > 0 and (
        ALL_EVENTS in data.events or event in data.events)


class UnknownEvent(ValueError):
""", """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
""", """        self.events = events if type(events) in (list, tuple) else [events]
""", """        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        self.data.events.extend(self.events)
        return self.data.suppress
""")
R(V, """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        values = getattr(obj, self.storage)
        changed = value != values.get(self.name, self.default)
        values[self.name] = value
        if not (self.always_dispatch or changed):
            return
        self._dispatch(obj, value)
""", """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
""", """        values = getattr(obj, self.storage)
        del values[self.name]
        self._dispatch(obj, UNSET)

    def _dispatch(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""", """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            known = self.__events__ + self.__class__.__events__
            if event not in known:
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = []
            if subscriber in self.__subscribers__[event]:
                continue
            self.__subscribers__[event].append(subscriber)
""")
T = 'locking.py'
R(T, """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = self._lock_for(node.root)

    @staticmethod
    def _lock_for(root):
        with _creation_lock:
            lock = getattr(root, '_treelock', None)
            if lock is None:
                lock = RLock()
                root._treelock = lock
            return lock
""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""")
R(T, """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        root = node.root
        _creation_lock.acquire()
        try:
            try:
                self.lock = root._treelock
            except AttributeError:
                self.lock = root._treelock = RLock()
        finally:
            _creation_lock.release()
""")
M = 'behaviors/mapping.py'
R(M, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        return self[key] if key in self else default

    @default
    def __contains__""", """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        try:
            self[key]
        except KeyError:
            found = False
        else:
            found = True
        return found
""", """        return len(self.keys())
""", """        return sum(1 for _ in self.keys())
""")
R(M, """        return [(key, self[key]) for key in self]
""", """        return list(zip(self.keys(), self.values()))
""", """        return [x for x in self]
""", """        return list(iter(self))
""")
R(M, """        return [self[key] for key in self]
""", """        return list(map(self.__getitem__, self))
""", """        for key in self:
            yield self[key]
""", """        for _, value in self.iteritems():
            yield value
""")
R(M, """        return [(key, self[key]) for key in self]
""", """        result = list()
        for key in self:
            item = (key, self[key])
            result.append(item)
        return result
""", """        for key in self:
            yield key, self[key]
""", """        return ((key, self[key]) for key in self)
""", """        for key in self.keys():
            del self[key]
""", """        keys = list(self.keys())
        while keys:
            del self[keys.pop(0)]
""")
R(M, """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        if len(args) > 1:
            raise TypeError(
                'At most one positional argument, not: %d.' % len(args))
        sources = [iteritems(kw)]
        if args:
            data = args[0]
            sources.insert(
                0, iteritems(data) if hasattr(data, ITER_FUNC) else data)
        for source in sources:
            for key, val in source:
                self[key] = val
""")
R(M, """        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        def set_all(pairs):
            for key, val in pairs:
                self[key] = val

        for data in args:
            set_all(iteritems(data) if hasattr(data, ITER_FUNC) else data)
        set_all(iteritems(kw))
""")
R(M, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        val = default
        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            return default
        return val
""", """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        try:
            key = self.keys()[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        val = self[key]
        del self[key]
        return key, val
""", """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            return self[key]
        except KeyError:
            pass
        self[key] = default
        return default
""")
R(M, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        key = keys[len(keys) - 1]
        item = (key, self[key])
        del self[key]
        return item
""")
A = 'behaviors/alias.py'
UN = """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
"""
R(A, """@implementer(IAlias)
class Alias(Behavior):
""", """def _unalias(node, key):
    aliaser = node.aliaser
    return key if aliaser is None else aliaser.unalias(key)


@contextmanager
def _key_errors_for(key):
    try:
        yield
    except KeyError:
        raise KeyError(key)


@implementer(IAlias)
class Alias(Behavior):
""", """from plumber import Behavior
""", """from contextlib import contextmanager
from plumber import Behavior
""", UN + """            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        unaliased_key = _unalias(self, key)
        with _key_errors_for(key):
            return _next(self, unaliased_key)
""", UN + """            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        unaliased_key = _unalias(self, key)
        with _key_errors_for(key):
            _next(self, unaliased_key, val)
""")
R(A, UN + """            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        return self._call_aliased(_next, key)
""", UN + """            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        self._call_aliased(_next, key)
""", UN + """            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        self._call_aliased(_next, key, val)

    @default
    def _call_aliased(self, func, key, *args):
        unaliased = key
        if self.aliaser is not None:
            unaliased = self.aliaser.unalias(key)
        try:
            return func(self, unaliased, *args)
        except KeyError:
            raise KeyError(key)
""")
R(A, """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        if aliaser is None:
            for key in _next(self):
                yield key
            return
        whitelisting = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            try:
                alias = aliaser.alias(key)
            except KeyError:
                if not whitelisting:
                    raise
            else:
                yield alias
""", """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
""", """        return reduce(lambda k, aliaser: aliaser.alias(k), self.chain, key)
""", """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        return reduce(
            lambda k, aliaser: aliaser.unalias(k), reversed(self.chain), key)
""", """from odict import odict
""", """from functools import reduce
from odict import odict
""")
R(A, """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix
        if not prefix:
            return prefixed_key
        if prefixed_key.startswith(prefix):
            return prefixed_key[len(prefix):]
        raise KeyError(u"key '%s' does not match prefix '%s'" % (
            prefixed_key, prefix))
""", """        suffix = self.suffix or ''
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        suffix = self.suffix
        if not suffix:
            return suffixed_key
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '%s' does not match suffix '%s'" % (
                suffixed_key, suffix))
        return suffixed_key[:-len(suffix)]
""")
R(A, """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        return self._lookup(ReverseMapping(self), key)
""", """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        return self._lookup(self, aliased_key)

    def _lookup(self, mapping, key):
        if self.strict:
            return mapping[key]
        try:
            return mapping[key]
        except KeyError:
            return key
""")
T2 = 'behaviors/attributes.py'
R(T2, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            nodespaces['__attrs__'] = self.attributes_factory(
                name='__attrs__', parent=self)
        attrs = nodespaces['__attrs__']
        return AttributeAccess(attrs) \\
            if self.attribute_access_for_attrs else attrs
""")
R(T2, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        attrs = self._get_or_create_attrs()
        if not self.attribute_access_for_attrs:
            return attrs
        return AttributeAccess(attrs)

    @finalize
    def _get_or_create_attrs(self):
        attrs = self.nodespaces.get('__attrs__')
        if attrs is None:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            self.nodespaces['__attrs__'] = attrs
        return attrs
""")
B = 'behaviors/fallback.py'
R(B, """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    if getattr(parent, 'fallback_key', _marker) and node not in visited:
        visited.add(node)
        fallback = parent.get(parent.fallback_key, _marker)
        if fallback is not _marker:
            return _to_leaf(fallback, path=path, visited=visited)
    return _to_root(parent, path=path, visited=visited)
""", """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    current = node
    names = path[len(node.path):]
    while names:
        child = current.get(names[0], _marker)
        if child is _marker:
            return _to_root(current, path=path, visited=visited)
        current, names = child, names[1:]
    return current
""")
R(B, """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    while parent is not None:
        if getattr(parent, 'fallback_key', _marker) and node not in visited:
            visited.add(node)
            fallback = parent.get(parent.fallback_key, _marker)
            if fallback is not _marker:
                return _to_leaf(fallback, path=path, visited=visited)
        node, parent = parent, parent.__parent__
    return _marker
""")
R(B, """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                value = _marker if count > 0 else _to_root(
                    self, path=self.path + [key], visited=set())
            if value is _marker:
                raise
            return value
""")
ST = 'behaviors/storage.py'
R(ST, """        return self.storage.__iter__()
""", """        return iter(self.storage)
""", """        return self.storage[key]
""", """        storage = self.storage
        return storage[key]
""")
U = 'utils.py'
R(U, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        for val, key in self.items():
            if val == value:
                return key
        raise KeyError(value)
""", """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        try:
            self[value]
        except KeyError:
            return False
        return True
""", """        return [(v, k) for k, v in self.context.items()]
""", """        return [(self.context[key], key) for key in self.context]
""")
R(U, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        matches = (k for k in self.context if self.context[k] == value)
        try:
            return next(matches)
        except StopIteration:
            raise KeyError(value)
""", """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(val == value for val in self)
""")
R(U, """class AttributeAccess(object):
""", """class AttributeAccess(object):
    _get = object.__getattribute__

""", """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            return _context(self)[name]
        except KeyError:
            raise AttributeError(name)
""", """        context = object.__getattribute__(self, 'context')
        context[name] = value
""", """        _context(self)[name] = value
""", """        context = object.__getattribute__(self, 'context')
        del context[name]
""", """        del _context(self)[name]
""", """@implementer(IAttributeAccess)
""", """def _context(access):
    return object.__getattribute__(access, 'context')


@implementer(IAttributeAccess)
""")
R(U, """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
        elif isinstance(arg, UNICODE_TYPE):
            arg = arg.encode(self._encoding)
        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, (list, tuple)):
            return type(arg)([self.encode(x) for x in arg])
        if isinstance(arg, bytes):
            decoded = self.decode(arg)
            if isinstance(decoded, bytes):
                return decoded
            return self.encode(decoded)
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        if isinstance(arg, dict) or INode.providedBy(arg):
            return {self.encode(k): self.encode(v) for k, v in iteritems(arg)}
        return arg
""", """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, (list, tuple)):
            return arg.__class__(self.decode(item) for item in arg)
        if isinstance(arg, bytes):
            return self._decode_bytes(arg)
        if isinstance(arg, dict) or INode.providedBy(arg):
            return dict(self.decode(item) for item in iteritems(arg))
        return arg

    def _decode_bytes(self, arg):
        try:
            return arg.decode(self._encoding)
        except UnicodeDecodeError:
            if self._soft:
                return arg
            raise
""")
R(U, """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
        elif isinstance(arg, UNICODE_TYPE):
            arg = arg.encode(self._encoding)
        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, bytes):
            arg = self.decode(arg)
            return arg if isinstance(arg, bytes) else self.encode(arg)
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        return self._nested(self.encode, arg)

    def _nested(self, convert, arg):
        if isinstance(arg, (list, tuple)):
            return arg.__class__(map(convert, arg))
        if isinstance(arg, dict) or INode.providedBy(arg):
            return dict(map(convert, iteritems(arg)))
        return arg
""")
R(U, """        attribute_name = '_{}'.format(func.__name__)
        # do not use hasattr/getattr to avoid problems when overwriting
        # __getattr__ on a class which also uses instance_property
        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            pass
        setattr(self, attribute_name, func(self))
        return object.__getattribute__(self, attribute_name)
""", """    def wrapper(self):
""", """    attribute_name = '_' + func.__name__

    def wrapper(self):
""", """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        stripped = path.strip('/')
        path = stripped.split('/') if stripped else ()
    node = root
    for name in path:
        node = node[name]
    return node
""")
R(U, """    wrapped.__doc__ = func.__doc__
    return wrapped
""", """    wrapped.__doc__ = func.__doc__
    return wrapped


def _log(func, message, *args):
    logger.debug((u'{}: ' + message).format(
        func_name(func), *map(UNICODE_TYPE, args)))
""", """        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
""", """        _log(func, u'args={}, kws={}', args, kws)
""", """        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
""", """        _log(func, u'--> {}', f_result)
""")
Z = 'serializer.py'
R(Z, """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for callback in _callbacks(serializer.registry, ob):
                callback(self, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for callback in _callbacks(deserializer.registry, node):
                callback(self, node, node_data)
            return node
""", """###############################################################################
# encoder
###############################################################################
""", """def _callbacks(registry, ob):
    \"\"\"Callbacks registered for object.\"\"\"
    return [callback for cls, callback in registry.items() if (
        issubclass(cls, Interface) and cls.providedBy(ob)
    ) or isinstance(ob, cls)]


###############################################################################
# encoder
###############################################################################
""")
R(Z, """            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            return self._encode_node(ob)
""", """    def default(self, ob):
""", """    def _encode_node(self, ob):
        data = {}
        if self.include_class or not self.simple_mode:
            data['class'] = self.dotted_name(ob)
        data['name'] = ob.name
        for cls, callback in serializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(ob) \\
                    or isinstance(ob, cls):
                callback(self, ob, data)
        return data if self.simple_mode else {'__node__': data}

    def default(self, ob):
""")
R(Z, """        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
        # return data as is if no dict
        if not isinstance(data, dict):
            return data
        # decode class, method or function
        if '__ob__' in data:
            return self.resolve(data['__ob__'])
        # decode node
        if '__node__' in data:
            node_data = data['__node__']
            node = self.node_factory(node_data, parent=parent)
            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
        # decode data from dict
        return dict([
            (key, self.decode(value, parent=parent))
            for key, value in data.items()
        ])
""", """        if isinstance(data, STR_TYPE):
            return self._decode_string(data)
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
        if isinstance(data, dict):
            return self._decode_dict(data, parent)
        return data

    def _decode_string(self, data):
        prefix = '<UUID>:'
        if data.startswith(prefix):
            return uuid.UUID(data[len(prefix):])
        return UNSET if data == '<UNSET>' else data

    def _decode_dict(self, data, parent):
        if '__ob__' in data:
            return self.resolve(data['__ob__'])
        if '__node__' not in data:
            return {k: self.decode(v, parent=parent) for k, v in data.items()}
        node_data = data['__node__']
        node = self.node_factory(node_data, parent=parent)
        for cls, callback in deserializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(node):
                callback(self, node, node_data)
            elif isinstance(node, cls):
                callback(self, node, node_data)
        return node
""")
R(Z, """        factory = self.resolve(data['class'])
        kw = self.decode(data.get('kw', dict()))
        name = data['name']
        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        name = data['name']
        factory = self.resolve(data['class'])
        node = factory(**self.decode(data.get('kw', {})))
        if parent is None:
            node.__name__ = name
        else:
            parent[name] = node
        return node
""", """        components = name.split('.')
        path = components[0]
        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        path, _, rest = name.partition('.')
        ob = __import__(path)
        for comp in rest.split('.') if rest else []:
            path = path + '.' + comp
            if not hasattr(ob, comp):
                __import__(path)
            ob = getattr(ob, comp)
        return ob
""")
R(Z, """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if len(children) > 0:
        data['children'] = children
""", """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    if 'children' in data:
        for child in data['children']:
            decoder.decode(child, parent=node)
""", """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data.setdefault('attrs', {}).update({
        name: encoder.default(value) for name, value in node.attrs.items()})
""", """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    if not data.get('attrs'):
        return
    node_attrs = node.attrs
    for attr in data['attrs']:
        node_attrs[attr] = decoder.decode(data['attrs'][attr])
""")
R(Z, """    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    encoder_factory = NodeEncoder
    if simple_mode:
        encoder_factory = functools.partial(
            NodeEncoder, simple_mode=True, include_class=include_class)
    return json.dumps(ob, cls=encoder_factory)
""", """import json
""", """import functools
import json
""", """        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
        super(NodeEncoder, self).__init__(**kw)
""", """        for option in ('simple_mode', 'include_class'):
            if option in kw:
                setattr(self, option, kw.pop(option))
        super(NodeEncoder, self).__init__(**kw)
""")
