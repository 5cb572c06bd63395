# -- C01 ---------------------------------------------------------------------
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
""", """        if val.__parent__ is not self:
            val.__name__ = key
            val.__parent__ = self
        try:
            _next(self, key, val)
""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
""", """        if not val.__name__:
            val.__name__ = key
        val.__parent__ = self
        try:
""")
b('C01', COMMON, """        # only care about adopting if we have a node
        if not INode""", """        # nothing to do if already adopted under that key
        if key in self and self[key] is val:
            _next(self, key, val)
            return
        # only care about adopting if we have a node
        if not INode""")
b('C01', COMMON, """            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """            return self[key]
        except KeyError:
            return _next(self, key, default)
""")
b('C01', NODIFY, """        self.__name__ = name
        self.__parent__ = parent
""", """        if name:
            self.__name__ = name
        self.__parent__ = parent
""")
b('C01', BASE, """    Nodespaces,
    Adopt,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode""", """    Adopt,
    Nodespaces,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode""")
b('C01', BASE, """    Adopt,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    DictStorage)""", """    AsAttrAccess,
    DefaultInit,
    Nodify,
    DictStorage)""")
b('C01', ORDER, """        try:
            self[newnode.name] = newnode
        except Exception:""", """        try:
            if newnode.parent is not self:
                self[newnode.name] = newnode
        except Exception:""")
# -- C02 ---------------------------------------------------------------------
b('C02', COMMON, """            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """            val.__name__ = old_name
            if old_parent is not None:
                val.__parent__ = old_parent
            raise
""")
b('C02', COMMON, """            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """            val.__name__ = old_name
            val.__parent__ = None
            raise
""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name""", """        except (AttributeError, KeyError, ValueError):
            val.__name__ = old_name""")
b('C02', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
""", """        old_name = val.__name__
        val.__name__ = key
        val.__parent__ = self
        old_parent = val.__parent__
""")
b('C02', ORDER, """            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise
""", """            # refused by a behavior, e.g. because of duplicate uuids
            del self[newnode.name]
            raise
""")
# -- C03 ---------------------------------------------------------------------
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        _next(self, key, val)
        if not self.allow_non_node_childs and not INode.providedBy(val):
            del self[key]
            raise ValueError('Non-node childs are not allowed.')
""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""", """        if not self.allow_non_node_childs and val \\
                and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""", """        if not self.allow_non_node_childs and not hasattr(val, '__name__'):
            raise ValueError('Non-node childs are not allowed.')
""")
b('C03', BASE, """@plumbing(
    NodeChildValidate,
    Adopt,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class OrderedNode""", """@plumbing(
    Adopt,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class OrderedNode""")
# -- C04 ---------------------------------------------------------------------
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise""", """            if int(val.uuid) in self._index:
                raise""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
""", """            for node in val.values():
                node._index = self._index
""")
b('C04', REFERENCE, """            self._index.update(val._index)
""", """            self._index[int(val.uuid)] = val
""")
b('C04', REFERENCE, """        if INode.providedBy(val):
            keys =""", """        if INode.providedBy(val) and len(val):
            keys =""")
b('C04', REFERENCE, """            if keys.intersection(val._index.keys()):""",
  """            if val.parent is not self and keys.intersection(
                    val._index.keys()):""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                val._index = val_index
                raise
""")
# -- C05 ---------------------------------------------------------------------
b('C05', REFERENCE, """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            iuuid = int(todel.uuid)
            removed[iuuid] = self._index[iuuid]
            del self._index[iuuid]
""")
b('C05', REFERENCE, """            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """            raise ValueError('Given uuid was already used for another Node')
        self._index[iuuid] = self
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._uuid = uuid
""")
b('C05', REFERENCE, """        return self._index.get(int(uuid))
""", """        node = self._index.get(int(uuid))
        return node if node is not self else None
""")
b('C05', REFERENCE, """        return int(key) in self._index
""", """        return self._index.get(key) is not None
""")
b('C05', REFERENCE, """            node._index = {int(node.uuid): node}
            node._index_nodes()
""", """            node._index = {int(node.uuid): node}
            for child in node.values():
                node._index[int(child.uuid)] = child
""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index and len(self._index) > 1:
            del""")
# -- C06 ---------------------------------------------------------------------
b('C06', ORDER, """            self.storage.insertafter(refnode.name, newnode.name, newnode)
""", """            self.storage.insertafter(refnode.name, newnode.name, newnode)
            newnode.__parent__ = self
""", """    def insertafter(self, newnode, refnode):
        self._validateinsertion(newnode)
""", """    def insertafter(self, newnode, refnode):
        if refnode is self.last_child:
            self[newnode.name] = newnode
            return
        self._validateinsertion(newnode)
""", """    @override
    def insertlast""", """    @property
    def last_child(self):
        keys = self.keys()
        return self[keys[-1]] if keys else None

    last_child = default(last_child)

    @override
    def insertlast""", """from plumber import Behavior
""", """from plumber import Behavior
from plumber import default
""")
b('C06', ORDER, """        if node.name is None:
            raise""", """        if not node.name:
            raise""")
b('C06', ORDER, """            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """            self.storage.insertbefore(refnode.name, newnode.name, newnode)
            self._setinserted(newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
""")
b('C06', ORDER, """        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        refnode = self[min(keys)]
        self.insertbefore(newnode, refnode)
""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)
""", """        if node_a.parent is self and node_b.parent is self:
            self.storage.swap(node_a.name, node_b.name)
""")
b('C06', ORDER, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        self[newnode.name] = newnode
""")
# -- C07 ---------------------------------------------------------------------
b('C07', STORAGE, """        return odict()
""", """        return self.__dict__.setdefault('_children', odict())
""")
b('C07', STORAGE, """class OdictStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return odict()
""", """class OdictStorage(Storage):
    storage = default(odict())
""")
b('C07', STORAGE, """    def __setitem__(self, key, val):
        self.storage[key] = val
""", """    def __setitem__(self, key, val):
        if val is None:
            self.storage.pop(key, None)
            return
        self.storage[key] = val
""")
b('C07', STORAGE, """        return self.storage[key]
""", """        return self.storage.get(key)
""")
b('C07', STORAGE, """        del self.storage[key]
""", """        self.storage.pop(key, None)
""")
b('C07', STORAGE, """        return self.storage.__iter__()
""", """        return iter(sorted(self.storage))
""")
# -- C08 ---------------------------------------------------------------------
b('C08', MAPPING, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        if key in self:
            return self[key] or default
        return default

    @default
    def __contains__""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        return self.get(key) is not None
""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        return key in self.keys()
""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]
""", """        return list(zip(self.keys(), set(self.values())))
""")
b('C08', MAPPING, """        for key in self:
            yield self[key]
""", """        for key in self:
            value = self.get(key)
            if value is not None:
                yield value
""")
b('C08', MAPPING, """        return len(self.keys())
""", """        return len(self.values())
""")
b('C08', MAPPING, """        return len(self.keys())
""", """        return len(set(self.keys()))
""")
b('C08', MAPPING, """        for key in self:
            yield key, self[key]
""", """        for key in sorted(self):
            yield key, self[key]
""")
b('C08', MAPPING, """        return key in self

""", """        return key in self.keys()

""")
# -- C09 ---------------------------------------------------------------------
b('C09', MAPPING, """            for key, val in data:
                self[key] = val
        for key""", """            for key, val in data:
                self[key] = val
            return
        for key""")
b('C09', MAPPING, """            for key, val in data:
                self[key] = val
        for key""", """            for key, val in dict(data).items():
                self[key] = val
        for key""")
b('C09', MAPPING, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        if key not in self:
            if not default:
                raise KeyError(key)
            return default
        val = self[key]
        del self[key]
        return val
""")
b('C09', MAPPING, """            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """            val = self[key]
        except KeyError:
            if default is UNSET:
                raise
            return default
        if val is not default:
            del self[key]
        return val
""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise""", """        for key in reversed(self.keys()):
            val = self[key]
            if val:
                del self[key]
                return key, val
        raise""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]
""", """        for key in self.keys():
            if key in self:
                del self[key]
            else:
                break
""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
""", """            if data and hasattr(data, ITER_FUNC):
                data = iteritems(data)
""")
b('C09', COMMON, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        if self.get(key) is None:
            self[key] = default
        return self[key]
""")
# -- C10 ---------------------------------------------------------------------
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = [parent.name for parent in LocationIterator(self)
                if parent.name is not None]
        path.reverse()
        return path
""")
b('C10', NODIFY, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        root = self
        while root.__parent__:
            root = root.__parent__
        return root
""")
b('C10', NODIFY, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        root = getattr(self, '_root', None)
        if root is None:
            for parent in LocationIterator(self):
                root = parent
            self._root = root
        return root
""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        if self.parent is None:
            return [self.name]
        return self.parent.path + [self.name] if self.name else []
""")
b('C10', NODIFY, """        node = self.parent
        while node is not None:
""", """        node = self
        while node:
""")
b('C10', UTILS, """    while obj is not None:
        yield obj
""", """    while obj:
        yield obj
""")
b('C10', UTILS, """        path = path.strip('/')
        path = path.split('/') if path else []
""", """        path = [x for x in path.split('/') if x.strip()]
""")
b('C10', UTILS, """    for name in path:
        node = node[name]
    return node
""", """    for name in path:
        node = node.get(name)
    return node
""")
# -- C11 ---------------------------------------------------------------------
b('C11', NODIFY, """        new.__parent__ = self.__parent__
        return new
""", """        return new
""")
b('C11', COMMON, """                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """                if INode.providedBy(child):
                    self.set_uuid_for(child, override)
""")
b('C11', COMMON, """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
""", """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        else:
            return
        if recursiv:
""")
b('C11', COMMON, """        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
""", """        self.set_uuid_for(copied, self.uuid is not None,
                          self.overwrite_recursiv_on_copy)
        copied.uuid = copied.uuid or self.uuid
""")
b('C11', COMMON, """            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
""", """            if override or not node.uuid:
                node.uuid = node.uuid or self.uuid_factory()
        if recursiv:
""")
b('C11', MAPPING, """        return copy.deepcopy(self)
""", """        return copy.copy(self)
""")
# -- C12 ---------------------------------------------------------------------
b('C12', NODESPACE, """          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return""", """          and key.startswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return""")
b('C12', NODESPACE, """            return self.nodespaces[key]
        return _next(self, key)
""", """            if key in self.nodespaces:
                return self.nodespaces[key]
        return _next(self, key)
""")
b('C12', NODESPACE, """        if self._nodespaces is None:
""", """        if not self._nodespaces:
""")
b('C12', NODESPACE, """            self.nodespaces[key] = val
            # index""", """            self.nodespaces.setdefault(key, val)
            # index""")
b('C12', NODESPACE, """            self._nodespaces['__children__'] = self
""", """            self.nodespaces['__children__'] = self
""", """            self._nodespaces = odict()
""", """            self.__class__._nodespaces = odict()
""")
# -- C13 ---------------------------------------------------------------------
b('C13', ATTRIBUTES, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs""", """        attrs = self.nodespaces.get('__attrs__')
        if not attrs:
            attrs""")
b('C13', ATTRIBUTES, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None or not len(attrs):
            attrs""")
b('C13', ATTRIBUTES, """                self.attributes_factory(name='__attrs__', parent=self)
""", """                self.attributes_factory(name='__attrs__', parent=self.root)
""")
b('C13', ATTRIBUTES, """                self.attributes_factory(name='__attrs__', parent=self)
""", """                NodeAttributes(name='__attrs__', parent=self)
""")
b('C13', ATTRIBUTES, """            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """            attrs = self.attributes_factory(name='__attrs__', parent=self)
            if self.attribute_access_for_attrs:
                attrs = AttributeAccess(attrs)
            self.nodespaces['__attrs__'] = attrs
        return attrs
""")
# -- C14 ---------------------------------------------------------------------
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        value = cache.get(key)
        if value is None:
            value = cache[key] = _next(self, key)
        return value if value else _next(self, key)
""")
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        if key not in cache:
            try:
                cache[key] = _next(self, key)
            except KeyError:
                cache[key] = None
                raise
        return cache[key]
""")
b('C14', CACHE, """            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            self.cache[key] = value
""")
b('C14', CACHE, """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """            self.cache.clear()
            return
        _next(self, key=key)
""")
b('C14', CACHE, """        return dict()

    @plumb
    def invalidate""", """        return self.__class__.__dict__.get('_shared_cache', dict())

    @plumb
    def invalidate""")
b('C14', CACHE, """    @default
    @instance_property
    def cache(self):
        \"\"\"Default cache is a dict on self.
        \"\"\"
        return dict()
""", """    cache = default(dict())
""")
# -- C15 ---------------------------------------------------------------------
b('C15', CACHE, """        if key is not None:
            del self[key]
        else:""", """        if key:
            del self[key]
        else:""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
""", """            if key in storage:
                del storage[key]
            elif key not in _keys(self) or not storage:
                raise KeyError(key)
""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]
""", """            self.storage = type(storage)()
""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]
""", """            for key in _keys(storage):
                if storage[key] is not None:
                    del storage[key]
""")
b('C15', CACHE, """            for key in _keys(self):
                del self[key]
""", """            for key in _keys(self):
                try:
                    del self[key]
                except KeyError:
                    break
""")
# -- C16 ---------------------------------------------------------------------
b('C16', ALIAS, """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(unaliased_key)
""")
b('C16', ALIAS, """    def __delitem__(_next, self, key):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
""", """    def __delitem__(_next, self, key):
        if self.aliaser is not None:
            try:
                unaliased_key = self.aliaser.unalias(key)
            except KeyError:
                unaliased_key = key
        else:
            unaliased_key = key
""")
b('C16', ALIAS, """                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """                # an enumerable aliaser whitelists, we skip non-listed keys
                continue
""")
b('C16', ALIAS, """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
""", """        seen = set()
        for key in _next(self):
            try:
                alias = self.aliaser.alias(key) if self.aliaser else key
                if alias in seen:
                    continue
                seen.add(alias)
                yield alias
""")
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __setitem__""", """        try:
            return _next(self, unaliased_key)
        except KeyError:
            return _next(self, key)

    @plumb
    def __setitem__""")
# -- C17 ---------------------------------------------------------------------
b('C17', ALIAS, """        return prefixed_key[len(prefix):]
""", """        return prefixed_key.replace(prefix, '', 1) if prefix else prefixed_key
""")
b('C17', ALIAS, """        return prefixed_key[len(prefix):]
""", """        return prefixed_key.lstrip(prefix)
""")
b('C17', ALIAS, """        return prefixed_key[len(prefix):]
""", """        return prefixed_key.split(prefix)[-1]
""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        return suffixed_key.replace(suffix, '')
""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        return suffixed_key.partition(suffix)[0] if suffix else suffixed_key
""")
b('C17', ALIAS, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        for aliaser in self.chain:
            key = aliaser.unalias(key)
        return key
""")
b('C17', ALIAS, """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        value = self.get(aliased_key)
        if not value and not self.strict:
            return aliased_key
        return self[aliased_key]
""")
b('C17', ALIAS, """            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """            return dict((k, v) for k, v in self.items())[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""")
# -- C18 ---------------------------------------------------------------------
b('C18', UTILS, """            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            arg = dict([(k, self.decode(v)) for k, v in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""")
b('C18', UTILS, """            arg = arg.encode(self._encoding)
        elif""", """            arg = arg.encode(CHARACTER_ENCODING)
        elif""")
b('C18', UTILS, """                if not self._soft:
                    raise
""", """                if not self._soft:
                    raise
                arg = arg.decode(self._encoding, 'ignore')
""")
b('C18', UTILS, """    def decode(self, arg):
        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
""", """    def decode(self, arg):
        if isinstance(arg, (list, tuple)):
            arg = list(map(self.decode, arg))
""")
b('C18', UTILS, """    def decode(self, arg):
        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
""", """    def decode(self, arg):
        if not arg:
            return arg
        if isinstance(arg, list):
            for idx, val in enumerate(arg):
                arg[idx] = self.decode(val)
        elif isinstance(arg, tuple):
            arg = arg.__class__(map(self.decode, arg))
""")
b('C18', UTILS, """        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        return arg
""")
# -- C19 ---------------------------------------------------------------------
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        if isinstance(key, bytes):
            key = decode(key)
            val = decode(val)
        return _next(self, key, val)
""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        if isinstance(key, bytes):
            key = decode(key)
        if not INode.providedBy(val):
            val = decode(val)
        return _next(self, key, val)
""")
b('C19', COMMON, """    def __delitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__""", """    def __delitem__(_next, self, key):
        if isinstance(key, bytes) and key not in self:
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__""")
# -- C20 ---------------------------------------------------------------------
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        delnode = self[key]
        if not self._notify_suppress:
            objectEventNotify(self.events['removed'](
                delnode, oldParent=self, oldName=key))
        _next(self, key)
""")
b('C20', LIFECYCLE, """            self._notify_suppress = notify_suppress
""", """            self._notify_suppress = False
""")
b('C20', LIFECYCLE, """        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
""", """        if node.__parent__ is self:
            objectEventNotify(self.events['detached'](
                node, oldParent=self, oldName=key))
        return node
""")
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](""", """        exists = key in self
        _next(self, key, val)
        if self._notify_suppress or exists:
            return
        objectEventNotify(self.events['added'](""")
b('C20', LIFECYCLE, """        objectEventNotify(self.events['created'](self))
""", """        if self.__parent__ is None:
            objectEventNotify(self.events['created'](self))
""")
b('C20', LIFECYCLE, """        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        objectEventNotify(self.events['removed'](
            delnode, oldParent=delnode.__parent__, oldName=delnode.__name__))
""")
b('C20', LIFECYCLE, """            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        if notify_suppress:
            return node
        objectEventNotify""")
# -- C21 ---------------------------------------------------------------------
b('C21', LIFECYCLE, """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        if key in self and self[key] == val:
            return
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""")
b('C21', LIFECYCLE, """    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return
""", """    def __delitem__(_next, self, key):
        try:
            _next(self, key)
        finally:
            notify = not self.__parent__._notify_suppress
            if notify:
                objectEventNotify(
                    self.__parent__.events['modified'](self.__parent__))
        return
""")
b('C21', LIFECYCLE, """        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__""", """        objectEventNotify(self.__parent__.events['modified'](self))

    @plumb
    def __delitem__""")
# -- C22 ---------------------------------------------------------------------
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber in subscribers:
                continue
            subscribers.insert(0, subscriber)
""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""", """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    break
""")
b('C22', EVENTS, """            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                del self.__subscribers__[event]
""")
b('C22', EVENTS, """                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
""", """                    and event not in self.__class__.__events__:
                continue
""")
b('C22', EVENTS, """                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
""", """                    and not hasattr(self, event):
                raise UnknownEvent(event)
""")
b('C22', EVENTS, """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
""", """        if not event and not subscriber:
            self.__subscribers__ = dict()
""")
b('C22', EVENTS, """        if event not in self.__events__:
            self.__events__.append(event)
""", """        if event not in self.__events__:
            self.__class__.__events__.append(event)
""")
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            self.__subscribers__.setdefault(event, list()).append(subscriber)
""")
b('C22', EVENTS, """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif""", """        if event is None and subscriber is None:
            self.__subscribers__.clear()
            self.__events__ = list()
        elif""")
# -- C23 ---------------------------------------------------------------------
b('C23', EVENTS, """        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        if self.always_dispatch or value != old_value:
            storage[self.name] = value
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
""", """        if self.always_dispatch or value is not old_value:
""")
b('C23', EVENTS, """        return getattr(obj, self.storage).get(self.name, self.default)
""", """        return getattr(obj, self.storage).get(self.name) or self.default
""")
b('C23', EVENTS, """        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
""", """        old_value = storage.setdefault(self.name, self.default)
        storage[self.name] = value
""")
b('C23', EVENTS, """        old_value = storage.get(self.name, self.default)
""", """        old_value = storage.get(self.name)
""")
b('C23', EVENTS, """        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
        storage[self.name] = value
""")
b('C23', EVENTS, """        self.subscribers.append(func)
        return func
""", """        self.subscribers[:] = [func]
        return func
""")
# -- C24 ---------------------------------------------------------------------
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.data.suppress -= 1
        for event in self.events:
            self.data.events = [x for x in self.data.events if x != event]
""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.data.suppress -= 1
        if not self.data.suppress:
            del self.data.events[:]
""")
b('C24', EVENTS, """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        if suppress_events.data.suppress > 0:
            last = suppress_events.data.events[-1]
            if last is ALL_EVENTS or event == last:
                return
""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.remove(event)
""", """        for event in self.events:
            self.data.events.remove(event)
        return type_ is not None and issubclass(type_, ValueError)
""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        if type_ is not None:
            return
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""")
b('C24', EVENTS, """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in""", """        if suppress_events.data.suppress == 1:
            if ALL_EVENTS in""")
# -- C25 ---------------------------------------------------------------------
b('C25', EVENTS, """class _subscribers_data(threading.local):""",
  """class _subscribers_data(object):""")
b('C25', EVENTS, """class _suppress_data(threading.local):""",
  """class _suppress_data(object):""")
b('C25', FALLBACK, """class _processing_data(threading.local):""",
  """class _processing_data(object):""")
b('C25', FALLBACK, """    def __enter__(self):
        self.data.processing += 1
        return self.data.processing

    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
""", """    def __enter__(self):
        fallback_processing.count = getattr(
            fallback_processing, 'count', -1) + 1
        return fallback_processing.count

    def __exit__(self, type, value, traceback):
        fallback_processing.count -= 1
""")
# -- C26 ---------------------------------------------------------------------
b('C26', FALLBACK, """        self.data.processing -= 1
""", """        if type is None:
            self.data.processing -= 1
""")
b('C26', FALLBACK, """                if value is _marker:
                    raise
""", """                if not value:
                    raise
""")
b('C26', FALLBACK, """    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
""", """    if not fallback:
        return _to_root(parent, path=path, visited=visited)
""")
b('C26', FALLBACK, """    for name in path[len(current.path):]:
""", """    for name in path[len(node.parent.path):]:
""")
b('C26', FALLBACK, """        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
""", """        new_current = current.get(name)
        if new_current is None:
            return _to_root(current, path=path, visited=visited)
""")
b('C26', FALLBACK, """    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
""", """    if not getattr(parent, 'fallback_key', _marker):
        return _to_root(parent, path=path, visited=visited)
""")
b('C26', FALLBACK, """        try:
            value = _next(self, key)
        except KeyError:
""", """        try:
            value = _next(self, key)
            if value is None:
                raise KeyError(key)
        except KeyError:
""")
b('C26', FALLBACK, """                value = _to_root(self, path=self.path + [key], visited=set())
""", """                value = _to_root(self, path=[self.name, key], visited=set())
""")
# -- C27 ---------------------------------------------------------------------
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        TreeLock(self).acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            TreeLock(self).release()
        return result
""")
b('C27', LOCKING, """        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        except Exception:
            lock.release()
            raise
        lock.release()
        return result
""")
b('C27', LOCKING, """        root = node.root
""", """        root = node.parent if node.parent is not None else node
""")
b('C27', LOCKING, """    def __exit__(self, type, value, traceback):
        self.release()
""", """    def __exit__(self, type, value, traceback):
        if type is None:
            self.release()
""")
b('C27', LOCKING, """    def __exit__(self, type, value, traceback):
        self.release()
""", """    def __exit__(self, type, value, traceback):
        self.release()
        return True
""")
b('C27', LOCKING, """        self.lock.acquire()
""", """        self.lock.acquire(False)
""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            result = fn(self, *args, **kwargs)
            if hasattr(result, '__next__'):
                return iter(result)
        return result or None
""")
# -- C28 ---------------------------------------------------------------------
b('C28', SERIALIZER, """            return '<UUID>:{}'.format(ob)
""", """            return '<UUID>:{}'.format(ob.hex[:16])
""")
b('C28', SERIALIZER, """            return [self.decode(it, parent=parent) for it in data]
""", """            return [self.decode(it, parent=parent) for it in data if it]
""")
b('C28', SERIALIZER, """            if data == '<UNSET>':
                return UNSET
""", """            if data == '<UNSET>':
                return None
""")
b('C28', SERIALIZER, """        if isclass(ob) or ismethod(ob) or isfunction(ob):
            if self""", """        if isclass(ob) or isfunction(ob):
            if self""")
b('C28', SERIALIZER, """            return [self.decode(it, parent=parent) for it in data]
""", """            return [self.decode(it) for it in data]
""")
# -- C29 ---------------------------------------------------------------------
b('C29', SERIALIZER, """    for child in node.values():
        children.append(encoder.default(child))
""", """    for child in node.values():
        child_data = encoder.default(child)
        if child_data not in children:
            children.append(child_data)
""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    for name, child in node.attrs.items():
        if child is not None:
            attrs[name] = encoder.default(child)
""")
b('C29', SERIALIZER, """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    for attr, value in attrs.items():
        node.attrs.setdefault(attr, decoder.decode(value))
""")
b('C29', SERIALIZER, """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value, parent=node)
""")
b('C29', SERIALIZER, """        name = data['name']
        if parent is not None:
""", """        name = data['name']
        if parent:
""")
b('C29', SERIALIZER, """        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        node = factory(**kw)
        node.__name__ = name
        if parent is not None and name not in parent:
            parent[name] = node
        return node
""")
b('C29', SERIALIZER, """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
""", """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                    break
                elif isinstance(ob, cls):
                    callback(self, ob, data)
                    break
""")
b('C29', SERIALIZER, """            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
""", """            if self.include_class:
                data['class'] = self.dotted_name(ob)
""")
# -- C30 ---------------------------------------------------------------------
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
        return child
""", """            child = self.factories[key]()
            if child is not None and len(child):
                self[key] = child
        return child
""")
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
        return child
""", """            child = self.factories[key]()
            child.__name__ = key
            child.__parent__ = self
        return child
""")
b('C30', COMMON, """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        if key in self.factories:
            child = self.factories[key]()
            self[key] = child
            return child
        return _next(self, key)
""")
b('C30', COMMON, """            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """            child = factory()
            child.__name__ = key
            child.__parent__ = self.__parent__
            self._children[key] = child
""")
b('C30', COMMON, """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
""", """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            if key in self._children:
                continue
            child = factory()
""")
b('C30', COMMON, """        _next(self, *args, **kw)
        self._children = odict()
        for key, factory""", """        self._children = odict()
        _next(self, *args)
        for key, factory""")
# -- C31 ---------------------------------------------------------------------
b('C31', UTILS, """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__""", """        value = context.get(name)
        if value is None:
            raise AttributeError(name)
        return value

    def __setattr__""")
b('C31', UTILS, """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value
""", """    def __setattr__(self, name, value):
        if name.startswith('_'):
            object.__setattr__(self, name, value)
            return
        context = object.__getattribute__(self, 'context')
        context[name] = value
""")
b('C31', UTILS, """        context = object.__getattribute__(self, 'context')
        del context[name]
""", """        context = object.__getattribute__(self, 'context')
        context.pop(name, None)
""")
# -- C32 ---------------------------------------------------------------------
b('C32', UTILS, """            if self.context[key] == value:
                return key
""", """            if self.context[key] is value:
                return key
""")
b('C32', UTILS, """            if val == value:
                return True
        return False
""", """            if val == value:
                return True
            return False
""")
b('C32', UTILS, """        return [val for val in self]

    def __iter__""", """        return list(set(self.context.values()))

    def __iter__""")
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]
""", """        return [(v, k) for k, v in self.context.items() if v]
""")
b('C32', UTILS, """            return self[value]
        except KeyError:
            return default

    def __contains__""", """            return self[value] or default
        except KeyError:
            return default

    def __contains__""")
# -- C34 ---------------------------------------------------------------------
b('C34', NODIFY, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        for val in self.itervalues():
            if not interface.providedBy(val):
                return
            yield val
""")
b('C34', NODIFY, """            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
""", """            if INode.providedBy(value) and value.parent is self:
                res += value.treerepr(indent=indent + 2, prefix=prefix)
""")
b('C34', NODIFY, """                res += value.treerepr(indent=indent + 2, prefix=prefix)
""", """                res += value.treerepr(indent=indent + 2)
""")
b('C34', NODIFY, """            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
""", """            else sorted(dict((UNICODE_TYPE(k), v)
                             for k, v in self.items()).items())
""")
b('C34', NODIFY, """        return [val for val in self.filtereditervalues(interface)]
""", """        return sorted(self.filtereditervalues(interface),
                      key=lambda x: str(x.name))
""")
# -- C35 ---------------------------------------------------------------------
b('C35', UTILS, """        attribute_name = '_{}'.format(func.__name__)
        # do""", """        attribute_name = '_property_value'
        # do""")
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """            value = func(self)
            if value:
                setattr(self, attribute_name, value)
            return value
""")
b('C35', UTILS, """        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(""", """        try:
            f_result = func(*args, **kws)
        except Exception as e:
            f_result = None
            logger.exception(e)
        logger.debug(u'{}: --> {}'.format(""")
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object""", """            setattr(self.__class__, attribute_name, func(self))
            return object""")
