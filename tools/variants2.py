"""Larger refactorings keeping the behaviour: (file, ((text, new), ...))."""
B = 'behaviors/'
REFACTORINGS = []


def r(rel, *edits):
    REFACTORINGS.append((rel, tuple(zip(edits[::2], edits[1::2]))))


# -- common ------------------------------------------------------------------

ADOPT = """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
"""
r(B + 'common.py', """@implementer(IAdopt)
class Adopt(Behavior):
""", """def _place(node, name, parent):
    node.__name__ = name
    node.__parent__ = parent


@implementer(IAdopt)
class Adopt(Behavior):
""", ADOPT, """        before = val.__name__, val.__parent__
        _place(val, key, self)
        try:
            _next(self, key, val)
        except Exception:
            _place(val, *before)
            raise
""")
r(B + 'common.py', """@implementer(IAdopt)
class Adopt(Behavior):
""", """@contextlib.contextmanager
def _located(node, name, parent):
    old_name, old_parent = node.__name__, node.__parent__
    node.__name__, node.__parent__ = name, parent
    try:
        yield
    except Exception:
        node.__name__, node.__parent__ = old_name, old_parent
        raise


@implementer(IAdopt)
class Adopt(Behavior):
""", ADOPT, """        with _located(val, key, self):
            _next(self, key, val)
""", "import inspect\n", "import contextlib\nimport inspect\n")
r(B + 'common.py', """        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
""" + ADOPT, """        if INode.providedBy(val):
            location = {n: getattr(val, n) for n in ('__name__', '__parent__')}
            val.__name__ = key
            val.__parent__ = self
            try:
                _next(self, key, val)
            except Exception:
                for n, v in location.items():
                    setattr(val, n, v)
                raise
        else:
            _next(self, key, val)
""")
r(B + 'common.py', ADOPT, """        old_name = val.__name__
        old_parent = val.__parent__
        stored = False
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
            stored = True
        finally:
            if not stored:
                val.__name__ = old_name
                val.__parent__ = old_parent
""")
r(B + 'common.py', """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            child = self[key]
        except KeyError:
            child = default
            self[key] = child
        return child
""")
r(B + 'common.py', """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            pass
        return self._create_child(key)

    @default
    def _create_child(self, key):
        factory = self.factories[key]
        self[key] = child = factory()
        return child
""")
r(B + 'common.py', """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            child = _next(self, key)
        except KeyError:
            factory = self.factories[key]
        else:
            return child
        child = factory()
        self[key] = child
        return child
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children = odict(
            (key, self._make_fixed_child(key, factory))
            for key, factory in self.fixed_children_factories
        )

    @default
    def _make_fixed_child(self, key, factory):
        child = factory()
        child.__name__ = key
        child.__parent__ = self
        return child
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = odict()
        for key, factory in self.fixed_children_factories:
            child = children[key] = factory()
            child.__parent__ = self
            child.__name__ = key
        self._children = children
""")
r(B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            self._validate_child(val)
        _next(self, key, val)

    @default
    def _validate_child(self, val):
        if inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""")
r(B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        msg = None
        if not self.allow_non_node_childs:
            if inspect.isclass(val):
                msg = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                msg = 'Non-node childs are not allowed.'
        if msg is not None:
            raise ValueError(msg)
        _next(self, key, val)
""")
r(B + 'common.py', """    @plumb
    def __delitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)

    @plumb
    def __setitem__(_next, self, key, val):
        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """    @plumb
    def __delitem__(_next, self, key):
        _next(self, _text(key))

    @plumb
    def __getitem__(_next, self, key):
        return _next(self, _text(key))

    @plumb
    def __setitem__(_next, self, key, val):
        return _next(self, _text(key), _text(val))
""", """@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""", """def _text(value):
    return decode(value) if isinstance(value, bytes) else value


@implementer(IUnicodeAware)
class UnicodeAware(Behavior):
""")
r(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if IUUIDAware.providedBy(node) and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        for child in filter(INode.providedBy, node.values()):
            self.set_uuid_for(child, override=override, recursiv=recursiv)
""")
r(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        needs_uuid = override or not getattr(node, 'uuid', None)
        if IUUIDAware.providedBy(node) and needs_uuid:
            node.uuid = self.uuid_factory()
        children = node.values() if recursiv else ()
        for child in children:
            if not INode.providedBy(child):
                continue
            self.set_uuid_for(child, override, recursiv)
""")

# -- mapping -----------------------------------------------------------------

r(B + 'mapping.py', """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        sources = list(args) + [kw]
        for data in sources:
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
""")
r(B + 'mapping.py', """@implementer(IExtendedWriteMapping)
class ExtendedWriteMapping(WriteMapping):
""", """def _pairs(data):
    return iteritems(data) if hasattr(data, ITER_FUNC) else data


@implementer(IExtendedWriteMapping)
class ExtendedWriteMapping(WriteMapping):
""", """            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """            for key, val in _pairs(args[0]):
                self[key] = val
        for key, val in _pairs(kw):
            self[key] = val
""")
r(B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = list(self.keys())
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        last = keys.pop()
        item = (last, self[last])
        del self[last]
        return item
""")
r(B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        try:
            key = self.keys()[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        val = self[key]
        del self[key]
        return key, val
""")
r(B + 'mapping.py', """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
""")
r(B + 'mapping.py', """        return [self[key] for key in self]
""", """        values = []
        for key in self:
            values.append(self[key])
        return values
""", """        return [(key, self[key]) for key in self]
""", """        return list((key, self[key]) for key in self)
""", """        return [x for x in self]
""", """        return list(self.__iter__())
""")
r(B + 'mapping.py', """        for key in self:
            yield self[key]
""", """        for key in iter(self):
            value = self[key]
            yield value
""", """        for key in self:
            yield key, self[key]
""", """        return ((key, self[key]) for key in self)
""")
r(B + 'mapping.py', """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        missing = object()
        return self.get(key, missing) is not missing
""")
r(B + 'mapping.py', """        for key in self.keys():
            del self[key]
""", """        remaining = list(self.keys())
        while remaining:
            del self[remaining.pop(0)]
""")

# -- storage / order ---------------------------------------------------------

r(B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        for key in self.keys():
            self.insertbefore(newnode, self[key])
            return
        self._insertonly(newnode)
""", """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        keys = self.keys()
        if keys:
            self.insertafter(newnode, self[keys[-1]])
        else:
            self._insertonly(newnode)

    @override
    def _insertonly(self, newnode):
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""")
r(B + 'order.py', """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(self.storage.insertbefore, newnode, refnode)
""", """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(self.storage.insertafter, newnode, refnode)

    @override
    def _insert(self, insert, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
r(B + 'order.py', """            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """            contained = self.node(node.uuid) is not None
            if contained:
                raise KeyError('Given node already contained in tree.')
        name, storage = node.name, self.storage
        if name in storage:
            raise KeyError('Given node name already contained in node.')
""")

# -- reference ---------------------------------------------------------------

SETR = """            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
        _next(self, key, val)
"""
r(B + 'reference.py', SETR, """            old = val._index
            self._share_index(old)
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                self._unshare_index(old)
                val._index = old
                raise
        else:
            _next(self, key, val)

    @default
    def _share_index(self, index):
        for iuuid, node in list(index.items()):
            self._index[iuuid] = node
            node._index = self._index

    @default
    def _unshare_index(self, index):
        for iuuid, node in index.items():
            self._index.pop(iuuid)
            node._index = index
""")
r(B + 'reference.py', """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index.pop(iuuid)
""")
r(B + 'reference.py', """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
""", """        todel = self[key]
        if not hasattr(todel, '_to_delete'):
            _next(self, key)
            return
        index = self._index
        removed = dict()
        for iuuid in todel._to_delete():
            removed[iuuid] = index[iuuid]
            del index[iuuid]
        try:
            _next(self, key)
        except Exception:
            index.update(removed)
            raise
        for node in removed.values():
            node._index = removed
""")
r(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        key = _index_key(uuid)
        if self._index.get(key, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        self._index.pop(_index_key(self._uuid), None)
        self._index[key] = self
        self._uuid = uuid
""", """@implementer(IReference)
class Reference(Behavior):
""", """def _index_key(uuid):
    return None if uuid is None else int(uuid)


@implementer(IReference)
class Reference(Behavior):
""")
r(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for child in self.values():
            if hasattr(child, '_to_delete'):
                todel.extend(child._to_delete())
        return todel
""")

# -- nodespaces --------------------------------------------------------------

r(B + 'nodespace.py', """@implementer(INodespaces)
class Nodespaces(Behavior):
""", """def _is_nodespace(key):
    if not isinstance(key, STR_TYPE):
        return False
    return key.startswith('__') and key.endswith('__')


@implementer(INodespaces)
class Nodespaces(Behavior):
""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
""", """        if _is_nodespace(key):
            return self.nodespaces[key]
""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """        if not _is_nodespace(key):
            _next(self, key, val)
            return
        val.__parent__ = self
        val.__name__ = key
        self.nodespaces[key] = val
""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            del self.nodespaces[key]
            return
        _next(self, key)
""", """        if _is_nodespace(key):
            del self.nodespaces[key]
        else:
            _next(self, key)
""")
r(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        if self._nodespaces is None:
            self._nodespaces = odict([('__children__', self)])
        return self._nodespaces
""")
r(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        spaces = self._nodespaces
        if spaces is not None:
            return spaces
        spaces = self._nodespaces = odict()
        spaces['__children__'] = self
        return spaces
""")

# -- attributes --------------------------------------------------------------

r(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            nodespaces['__attrs__'] = self._create_attrs()
        attrs = nodespaces['__attrs__']
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs

    @default
    def _create_attrs(self):
        return self.attributes_factory(name='__attrs__', parent=self)
""")
r(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None:
            factory = self.attributes_factory
            attrs = factory(name='__attrs__', parent=self)
            self.nodespaces['__attrs__'] = attrs
        if not self.attribute_access_for_attrs:
            return attrs
        return AttributeAccess(attrs)
""")

# -- cache -------------------------------------------------------------------

r(B + 'cache.py', """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicting(self.cache, key):
            _next(self, key, value)
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicting(self.cache, key):
            _next(self, key)
""", """@implementer(ICache)
class Cache(Behavior):
""", """@contextmanager
def _evicting(cache, key):
    _evict(cache, key)
    try:
        yield
    finally:
        _evict(cache, key)


@implementer(ICache)
class Cache(Behavior):
""", "from node.compat import IS_PY2\n", """from contextlib import contextmanager
from node.compat import IS_PY2
""")
r(B + 'cache.py', """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        keys = _keys(self.cache) if key is None else [key]
        for cached_key in keys:
            _evict(self.cache, cached_key)
        _next(self, key=key)
""")
r(B + 'cache.py', """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        if key is None:
            self.cache.clear()
        else:
            self.cache.pop(key, None)
        _next(self, key=key)
""")
r(B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        value = cache[key] = _next(self, key)
        return value
""")
r(B + 'cache.py', """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        storage = self.storage
        if key is None:
            for stored in _keys(storage):
                del storage[stored]
            return
        if key not in _keys(self):
            raise KeyError(key)
        _evict(storage, key)
""")

# -- alias -------------------------------------------------------------------

r(B + 'alias.py', """    @plumb
    def __getitem__(_next, self, key):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __delitem__(_next, self, key):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """    @default
    def _unalias(self, key):
        return key if self.aliaser is None else self.aliaser.unalias(key)

    @plumb
    def __getitem__(_next, self, key):
        unaliased_key = self._unalias(key)
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __setitem__(_next, self, key, val):
        unaliased_key = self._unalias(key)
        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __delitem__(_next, self, key):
        unaliased_key = self._unalias(key)
        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""")
r(B + 'alias.py', """@implementer(IAlias)
class Alias(Behavior):
""", """@contextmanager
def _report(key):
    try:
        yield
    except KeyError:
        raise KeyError(key)


@implementer(IAlias)
class Alias(Behavior):
""", "from node.interfaces import IAlias\n", """from contextlib import contextmanager
from node.interfaces import IAlias
""", """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        with _report(key):
            _next(self, unaliased_key, val)
""", """        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        with _report(key):
            _next(self, unaliased_key)
""")
r(B + 'alias.py', """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        if aliaser is None:
            for key in _next(self):
                yield key
            return
        whitelist = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            try:
                aliased = aliaser.alias(key)
            except KeyError:
                if not whitelist:
                    raise
            else:
                yield aliased
""")
r(B + 'alias.py', """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
""", """        return reduce(lambda k, aliaser: aliaser.alias(k), self.chain, key)
""", """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        return reduce(
            lambda k, aliaser: aliaser.unalias(k), reversed(self.chain), key)
""", "from node.interfaces import IAlias\n", """from functools import reduce
from node.interfaces import IAlias
""")
r(B + 'alias.py', """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix or ''
        size = len(prefix)
        if prefixed_key[:size] == prefix:
            return prefixed_key[size:]
        msg = u"key '{}' does not match prefix '{}'"
        raise KeyError(msg.format(prefixed_key, prefix))
""")

# -- lifecycle ---------------------------------------------------------------

r(B + 'lifecycle.py', """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _next(self, key, val)
        if not self._notify_suppress:
            self._notify('added', val, newParent=self, newName=key)

    @default
    def _notify(self, name, node, **kw):
        objectEventNotify(self.events[name](node, **kw))
""", """        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        _next(self, key)
        if not self._notify_suppress:
            self._notify('removed', delnode, oldParent=self, oldName=key)
""", """        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
""", """        self._notify('detached', node, oldParent=self, oldName=key)
        return node
""")
r(B + 'lifecycle.py', """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        with _suppressed(self):
            node = _next(self, key)
        objectEventNotify""", """@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """@contextmanager
def _suppressed(node):
    before = node._notify_suppress
    node._notify_suppress = True
    try:
        yield
    finally:
        node._notify_suppress = before


@implementer(ILifecycle)
class Lifecycle(Behavior):
""", "from node.events import NodeAddedEvent\n", """from contextlib import contextmanager
from node.events import NodeAddedEvent
""")
r(B + 'lifecycle.py', """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key, val)
        _notify_modified(self.__parent__)
""", """        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key)
        _notify_modified(self.__parent__)


def _notify_modified(node):
    if node._notify_suppress:
        return
    event = node.events['modified'](node)
    objectEventNotify(event)
""")

# -- fallback ----------------------------------------------------------------

r(B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    while True:
        parent = node.__parent__
        if parent is None:
            return _marker
        if getattr(parent, 'fallback_key', _marker) and node not in visited:
            visited.add(node)
            fallback = parent.get(parent.fallback_key, _marker)
            if fallback is not _marker:
                return _to_leaf(fallback, path=path, visited=visited)
        node = parent
""")
r(B + 'fallback.py', """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    remaining = path[len(node.path):]
    for name in remaining:
        child = node.get(name, _marker)
        if child is _marker:
            return _to_root(node, path, visited)
        node = child
    return node
""")
r(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError:
            value = self._lookup_fallback(key)
            if value is _marker:
                raise
            return value

    @default
    def _lookup_fallback(self, key):
        with fallback_processing() as count:
            if count > 0:
                return _marker
            return _to_root(self, path=self.path + [key], visited=set())
""")
r(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError as e:
            error = e
        with fallback_processing() as count:
            if count > 0:
                raise error
            value = _to_root(self, path=self.path + [key], visited=set())
        if value is _marker:
            raise error
        return value
""")

# -- events ------------------------------------------------------------------

r(B + 'events.py', """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
""", """        if _is_suppressed(event):
            return
        for subscriber in attribute_subscribers:
""", """class UnknownEvent(ValueError):
""", """def _is_suppressed(event):
    data = suppress_events.data
    if data.suppress <= 0:
        return False
    return ALL_EVENTS in data.events or event in data.events


class UnknownEvent(ValueError):
""")
r(B + 'events.py', """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            self._check_event(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber in subscribers:
                continue
            subscribers.append(subscriber)

    @finalize
    def _check_event(self, event):
        if event in self.__events__ or event in self.__class__.__events__:
            return
        raise UnknownEvent(event)
""")
r(B + 'events.py', """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if subscriber is None:
            if event is None:
                self.__subscribers__ = dict()
            else:
                self.__subscribers__.pop(event, None)
            return
        if event is None:
            affected = list(self.__subscribers__.values())
        else:
            affected = [self.__subscribers__.get(event, [])]
        for subscribers in affected:
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""")
r(B + 'events.py', """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        data = self.data
        data.events.extend(self.events)
        data.suppress = data.suppress + 1
        return data.suppress
""", """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        data = self.data
        for event in self.events:
            data.events.remove(event)
        data.suppress = data.suppress - 1
""")
r(B + 'events.py', """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        storage = self._storage_of(obj)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            self._dispatch(obj, value)

    def _storage_of(self, obj):
        return getattr(obj, self.storage)

    def _dispatch(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""", """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
""", """        del self._storage_of(obj)[self.name]
        self._dispatch(obj, UNSET)
""", """        return getattr(obj, self.storage).get(self.name, self.default)
""", """        return self._storage_of(obj).get(self.name, self.default)
""")
# -- locking -----------------------------------------------------------------

r('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = _lock_of(node.root)
""", """class TreeLock(object):
""", """def _lock_of(root):
    with _creation_lock:
        if not hasattr(root, '_treelock'):
            root._treelock = RLock()
        return root._treelock


class TreeLock(object):
""")
r('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""")

# -- serializer --------------------------------------------------------------

r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for callback in _callbacks(serializer.registry, ob):
                callback(self, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for callback in _callbacks(deserializer.registry, node):
                callback(self, node, node_data)
            return node
""", """class NodeEncoder(json.JSONEncoder):
""", """def _callbacks(registry, ob):
    for cls, callback in registry.items():
        if issubclass(cls, Interface) and cls.providedBy(ob):
            yield callback
        elif isinstance(ob, cls):
            yield callback


class NodeEncoder(json.JSONEncoder):
""")
r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for cls, callback in serializer.registry.items():
                if _matches(cls, ob):
                    callback(self, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for cls, callback in deserializer.registry.items():
                if _matches(cls, node):
                    callback(self, node, node_data)
            return node
""", """class NodeEncoder(json.JSONEncoder):
""", """def _matches(cls, ob):
    if issubclass(cls, Interface):
        return cls.providedBy(ob) or isinstance(ob, cls)
    return isinstance(ob, cls)


class NodeEncoder(json.JSONEncoder):
""")
r('serializer.py', """        # serialize Node
        if INode.providedBy(ob):
            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
        # Serialize class, method or function
        if isclass(ob) or ismethod(ob) or isfunction(ob):
            if self.simple_mode:
                return self.dotted_name(ob)
            return {'__ob__': self.dotted_name(ob)}
        # no custom serialization required
        return ob
""", """        # serialize Node
        if INode.providedBy(ob):
            return self._encode_node(ob)
        # Serialize class, method or function
        if any(check(ob) for check in (isclass, ismethod, isfunction)):
            name = self.dotted_name(ob)
            return name if self.simple_mode else {'__ob__': name}
        # no custom serialization required
        return ob

    def _encode_node(self, node):
        data = dict()
        if not self.simple_mode or self.include_class:
            data['class'] = self.dotted_name(node)
        data['name'] = node.name
        for cls, callback in serializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(node):
                callback(self, node, data)
            elif isinstance(node, cls):
                callback(self, node, data)
        return data if self.simple_mode else {'__node__': data}
""")
r('serializer.py', """        factory = self.resolve(data['class'])
        kw = self.decode(data.get('kw', dict()))
        name = data['name']
        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        factory = self.resolve(data['class'])
        node = factory(**self.decode(data.get('kw', {})))
        if parent is None:
            node.__name__ = data['name']
        else:
            parent[data['name']] = node
        return node
""")
r('serializer.py', """        # decode data from string
        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """        if isinstance(data, STR_TYPE):
            return self._decode_string(data)
""", """    def decode(self, data, parent=None):
""", """    @staticmethod
    def _decode_string(data):
        if data == '<UNSET>':
            return UNSET
        prefix = '<UUID>:'
        if data.startswith(prefix):
            return uuid.UUID(data[len(prefix):])
        return data

    def decode(self, data, parent=None):
""")
r('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if not children:
        return
    data['children'] = children
""", """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or ():
        decoder.decode(child, parent=node)
""")
r('serializer.py', """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data['attrs'] = dict(
        (name, encoder.default(child)) for name, child in node.attrs.items()
    )
""", """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    for attr, value in (data.get('attrs') or {}).items():
        node.attrs[attr] = decoder.decode(value)
""")
r('serializer.py', """        components = name.split('.')
        path = components[0]
        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        components = name.split('.')
        ob = __import__(components[0])
        for i, comp in enumerate(components[1:], 2):
            if not hasattr(ob, comp):
                # module not imported yet
                __import__('.'.join(components[:i]))
            ob = getattr(ob, comp)
        return ob
""")

# -- utils -------------------------------------------------------------------

r('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, (list, tuple)):
            return arg.__class__([self.decode(item) for item in arg])
        if isinstance(arg, dict):
            return {self.decode(k): self.decode(v) for k, v in iteritems(arg)}
        if isinstance(arg, bytes):
            return self._decode_bytes(arg)
        if INode.providedBy(arg):
            return dict(self.decode(item) for item in iteritems(arg))
        return arg

    def _decode_bytes(self, arg):
        try:
            return arg.decode(self._encoding)
        except UnicodeDecodeError:
            if self._soft:
                return arg
            raise
""")
r('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
        elif isinstance(arg, UNICODE_TYPE):
            arg = arg.encode(self._encoding)
        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, (list, tuple)):
            return arg.__class__(self.encode(item) for item in arg)
        if isinstance(arg, dict) or INode.providedBy(arg):
            return dict(self.encode(item) for item in iteritems(arg))
        if isinstance(arg, bytes):
            decoded = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if isinstance(decoded, bytes):
                return decoded
            return self.encode(decoded)
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        return arg
""")
r('utils.py', """    def wrapper(self):
        attribute_name = '_{}'.format(func.__name__)
        # do not use hasattr/getattr to avoid problems when overwriting
        # __getattr__ on a class which also uses instance_property
        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """    attribute_name = '_' + func.__name__

    def wrapper(self):
        try:
            value = object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = func(self)
            setattr(self, attribute_name, value)
        return value
""")
