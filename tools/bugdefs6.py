# sixth batch: performance tweaks, tidied up code, features gone wrong
# -- location, rollback, validation
b('C01', COMMON, """        if not INode.providedBy(val):
            _next(self, key, val)
            return
""", """        if not INode.providedBy(val) or val is self:
            _next(self, key, val)
            return
""")
b('C01', COMMON, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default


@implementer(IAsAttrAccess)""", """        if key in self.keys():
            return self[key]
        self.storage[key] = default
        if INode.providedBy(default):
            default.__parent__ = self
        return default


@implementer(IAsAttrAccess)""")
b('C01', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except""", """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, val.__name__, val)
            val.__name__ = getattr(val, 'alias_name', key)
        except""")
b('C01', COMMON, """            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child""", """            child = factory()
            child.__name__ = key
            child.__parent__ = self if self.__parent__ is None \\
                else self.__parent__
            self._children[key] = child""")
b('C01', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val""", """            if val.__parent__ is not self:
                val.__name__ = key
                val.__parent__ = self
            self.nodespaces[key] = val""")
b('C01', ORDER, """        try:
            self[newnode.name] = newnode
        except Exception:""", """        try:
            if newnode.parent is not self:
                self[newnode.name] = newnode
        except Exception:""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception as e:
            val.__name__ = old_name
            if val.__parent__ is self:
                val.__parent__ = old_parent
            else:
                val.__parent__ = None
            raise e""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except (KeyError, ValueError, TypeError, AttributeError,
                RuntimeError, NotImplementedError):
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""")
b('C02', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        state = dict(val.__dict__)
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__dict__.update(state)
            val.__parent__ = state.get('__parent__')
            val.__name__ = state.get('name')
            raise""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise""", """        if not self.allow_non_node_childs and val and \\
                not INode.providedBy(val):
            raise""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
""", """        if not self.allow_non_node_childs and inspect.isclass(val) \\
                and not INode.implementedBy(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
""")
b('C03', BASE, """    NodeChildValidate,
    Nodespaces,
    Adopt,
    Attributes,""", """    Nodespaces,
    Adopt,
    NodeChildValidate,
    Attributes,""")
# -- reference
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError""", """            keys = set(self._index)
            if len(val._index) <= len(keys) and keys & set(val._index):
                raise ValueError""")
b('C04', REFERENCE, """            if keys.intersection(val._index.keys()):
                raise ValueError""", """            if self._index is not val._index \\
                    and keys.intersection(val._index.keys()):
                raise ValueError""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index""", """            for node in val.values():
                node._index = self._index
            val._index = self._index""")
b('C04', REFERENCE, """            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""", """            except Exception:
                for iuuid in val_index:
                    self._index.pop(iuuid)
                    val_index[iuuid]._index = dict(val_index)
                val._index = val_index
                raise""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""", """                self._index = dict(
                    (iuuid, node) for iuuid, node in self._index.items()
                    if iuuid not in val_index)
                for node in val_index.values():
                    node._index = val_index
                val._index = val_index
                raise""")
b('C05', REFERENCE, """                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]""", """                if iuuid in self._index:
                    removed[iuuid] = self._index[iuuid]
                    if removed[iuuid].__parent__ is not None:
                        del self._index[iuuid]""")
b('C05', REFERENCE, """        except Exception:
            self._index.update(removed)
            raise
        # the deleted""", """        except KeyError:
            self._index.update(removed)
            raise
        # the deleted""")
b('C05', REFERENCE, """        for node in removed.values():
            node._index = removed""", """        for node in removed.values():
            if node.__parent__ is not self:
                node._index = removed""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        self._index[iuuid] = self
        if siuuid in self._index:
            del self._index[siuuid]""")
b('C05', REFERENCE, """        if iuuid in self._index \\
                and self._index[iuuid] is not self:""", """        if iuuid in self._index \\
                and self._index[iuuid].name != self.name:""")
b('C05', REFERENCE, """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()""", """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                if int(self[childkey].uuid) in todel:
                    break
                todel += self[childkey]._to_delete()""")
b('C05', REFERENCE, """            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()""", """            self._index[uuid] = node
            if node._index is not self._index:
                node._index_nodes()
            node._index = self._index""")
# -- order
b('C06', ORDER, """        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)""", """        refnode = self[min(keys)]
        self.insertbefore(newnode, refnode)""")
b('C06', ORDER, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)""", """        self._validateinsertion(newnode)
        self[newnode.name] = newnode
        keys = self.keys()
        if keys[-1] != newnode.name:
            self.storage.swap(keys[-1], newnode.name)""")
b('C06', ORDER, """        if node.name in self.storage:
            raise KeyError""", """        if node.name in self.storage and self.storage[node.name]:
            raise KeyError""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)""",
  """        if node_a.parent is node_b.parent:
            self.storage.swap(node_a.name, node_b.name)
            node_a.__name__, node_b.__name__ = \\
                node_b.__name__, node_a.__name__""")
b('C06', ORDER, """            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')""",
  """            found = self.node(node.uuid)
            if found is not None and found.parent is not None:
                raise KeyError('Given node already contained in tree.')""")
b('C06', ORDER, """            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise""", """            # refused by a behavior, e.g. because of duplicate uuids
            if newnode.parent is None:
                del self.storage[newnode.name]
            raise""")
# -- storage, mapping
b('C07', STORAGE, """    @override
    def __delitem__(self, key):
        del self.storage[key]""", """    @override
    def __delitem__(self, key):
        self.storage.pop(key, None)""")
b('C07', STORAGE, """    @default
    @instance_property
    def storage(self):
        return dict()""", """    @default
    @property
    def storage(self):
        return self.__dict__.setdefault('storage', dict()) \\
            if 'storage' in self.__dict__ \\
            else self.__class__.__dict__.get('_storage_default') or \\
            self._create()

    @default
    def _create(self):
        self.__class__._storage_default = {None: None}
        self.__class__._storage_default.clear()
        return self.__class__._storage_default""")
b('C07', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""",
  """            setattr(type(self), attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""")
b('C08', MAPPING, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        try:
            val = self[key]
        except KeyError:
            val = None
        return default if val is None else val

    @default
    def __contains__""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return list(zip(self.keys(), self.values()[:len(self)]))[::1] \\
            if len(self) < 1000 else list(self.iterkeys())""")
b('C08', MAPPING, """        return [self[key] for key in self]""",
  """        return [val for val in (self.get(key) for key in self)
                if val is not None]""")
b('C08', MAPPING, """        return len(self.keys())""",
  """        return len(set(self.keys()))""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        for key in self.keys():
            try:
                del self[key]
            except KeyError:
                # removed along with another child
                return""")
b('C09', MAPPING, """            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val""", """            val = self[key]
        except KeyError:
            if default is UNSET:
                raise
            return default
        if val is not default:
            del self[key]
        return val""")
b('C09', MAPPING, """            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for""", """            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                if key in kw:
                    continue
                self[key] = val
        for""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise""", """        for key in reversed(self.keys()):
            val = self.pop(key, None)
            if val is not None:
                return key, val
        raise""")
# -- path, copies
b('C10', NODIFY, """        node = self.parent
        while node is not None:
            if (IInterface""", """        node = self.parent
        while node is not None and node.name is not None:
            if (IInterface""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path""", """        path = [self.name]
        if self.parent is not None:
            path = list(self.parent.path) + path
        if path[0] is None and len(path) > 2:
            path = path[1:]
        return path""")
b('C10', UTILS, """    for name in path:
        node = node[name]
    return node""", """    for name in path:
        if name == '..' and node.parent is not None:
            node = node.parent
            continue
        node = node[name]
    return node""")
b('C10', UTILS, """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)""", """    seen = set()
    while obj is not None and obj not in seen:
        yield obj
        if obj.__name__ is None:
            seen.add(obj)
        obj = getattr(obj, 'parent', None)""")
b('C11', COMMON, """        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)""",
  """        self.set_uuid_for(copied, True)
        if self.overwrite_recursiv_on_copy:
            for child in copied.values():
                self.set_uuid_for(child, True, True)""")
b('C11', COMMON, """            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):""", """            for child in node.values():
                # non-Node values have no uuid and no children
                if IUUIDAware.providedBy(child):""")
b('C11', NODIFY, """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new""", """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__ if len(self) else None
        return new""")
# -- nodespaces, attributes
b('C12', NODESPACE, """          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)""", """          and key.endswith('__') \\
          and (key in self.nodespaces or len(key) > 4):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)""")
b('C12', NODESPACE, """            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces""", """            self._nodespaces = odict()
        self._nodespaces.setdefault('__children__', self.root)
        return self._nodespaces""")
b('C13', ATTRIBUTES, """            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if""", """            attrs = self.attributes_factory(name='__attrs__', parent=self)
            if attrs:
                self.nodespaces['__attrs__'] = attrs
        if""")
b('C13', ATTRIBUTES, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs""", """        if self.attribute_access_for_attrs \\
                and type(attrs) is self.attributes_factory:
            return AttributeAccess(attrs)
        return attrs""")
# -- cache
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        if cache.get(key) is None:
            cache[key] = _next(self, key)
        elif getattr(cache[key], 'name', key) != key:
            return cache[key].parent[key]
        return cache[key]""")
b('C14', CACHE, """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """            for cached_key in _keys(cache):
                if cached_key in self:
                    del cache[cached_key]
        _next(self, key=key)""")
b('C14', CACHE, """        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)""", """        size = len(self.cache)
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            if len(self.cache) > size + 1:
                _evict(self.cache, key)""")
b('C15', CACHE, """                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now""",
  """                try:
                    del storage[key]
                except KeyError:
                    # ignore, key is valid, but not on storage right now
                    storage[key] = None""")
b('C15', CACHE, """            for key in _keys(self):
                del self[key]
""", """            while len(self):
                del self[next(iter(self))]
                if not self.values():
                    break
""")
# -- alias, codec
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)""", """        try:
            return _next(self, unaliased_key)
        except KeyError as e:
            if e.args[0] != unaliased_key:
                return _next(self, key)
            raise KeyError(key)""")
b('C16', ALIAS, """                if IEnumerableMapping.providedBy(self.aliaser):
                    # an""", """                if IEnumerableMapping.providedBy(self.aliaser) \\
                        and len(self.aliaser):
                    # an""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]""",
  """        return suffixed_key.replace(suffix, '') \\
            if suffixed_key.count(suffix) == 1 \\
            else suffixed_key[:suffixed_key.index(suffix)]""")
b('C17', ALIAS, """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):""", """        prefix = self.prefix or ''
        if not prefixed_key.lower().startswith(prefix.lower()):""")
b('C17', ALIAS, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key""", """        for aliaser in sorted(
                self.chain, key=lambda x: isinstance(x, DictAliaser),
                reverse=True):
            key = aliaser.unalias(key)
        return key""")
b('C18', UTILS, """            arg = arg.__class__(map(self.decode, arg))""",
  """            arg = arg.__class__(
                self.decode(it) if it else it for it in arg)""")
b('C18', UTILS, """            arg = arg.encode(self._encoding)
        elif INode""", """            arg = arg.encode(
                self._encoding, 'replace' if self._soft else 'strict')
        elif INode""")
b('C18', UTILS, """        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):""", """        elif isinstance(arg, dict):
            for key, val in list(iteritems(arg)):
                arg[self.decode(key)] = self.decode(val)
        elif isinstance(arg, bytes):""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return""", """        if isinstance(key, bytes):
            key = decode(key)
            val = decode(val)
        return""")
# -- lifecycle
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))""",
  """        replaced = key in self.keys()
        _next(self, key, val)
        if self._notify_suppress or replaced:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))""")
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return""", """        delnode = self[key]
        suppress = self._notify_suppress or self.__parent__ is None and \\
            getattr(delnode, '_notify_suppress', False)
        _next(self, key)
        if suppress:
            return""")
b('C20', LIFECYCLE, """        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(""", """        finally:
            self._notify_suppress = notify_suppress
        if notify_suppress:
            return node
        objectEventNotify(""")
b('C21', LIFECYCLE, """    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return""", """    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress or not len(self):
            return""")
# -- events
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)""", """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber in subscribers:
                # most recent binding counts
                subscribers.remove(subscriber)
            subscribers.append(subscriber)""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        called = list()
        for subscriber in list(self.__subscribers__.get(event, list())):
            if subscriber in attribute_subscribers:
                continue
            if args not in called:
                called.append(args)
            subscriber(*called[-1], **kw)""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)""", """            for event, subscribers in self.__subscribers__.items():
                if subscriber in subscribers:
                    self.__subscribers__[event] = subscribers[
                        :subscribers.index(subscriber)]""")
b('C22', EVENTS, """        cls.__events__ = list(getattr(cls, '__events__', ()))""",
  """        cls.__events__ = list(
            bases[0].__events__ if hasattr(bases[0], '__events__') else ())""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
            with""", """        if self.always_dispatch or not (
                value is old_value or value == old_value):
            with""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
            with""", """        if self.always_dispatch or (
                value != old_value and old_value is not UNSET):
            with""")
b('C23', EVENTS, """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)""", """        storage = getattr(obj, self.storage)
        old_value = storage.pop(self.name, self.default)
        with _subscribers(self.subscribers):
            if old_value != self.default or self.always_dispatch:
                obj.dispatch(self.name, UNSET)""")
b('C24', EVENTS, """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return""", """        self.data.suppress += 1
        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)
        return""")
b('C24', EVENTS, """            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return""", """            if suppress_events.data.events[-1] is ALL_EVENTS:
                return
            if event in suppress_events.data.events:
                return""")
b('C25', EVENTS, """    data = _suppress_data()

    def""", """    _local = threading.local()

    @property
    def data(self):
        try:
            return self._local.data
        except AttributeError:
            self._local.data = suppress_events.__dict__.get(
                '_shared') or _suppress_data()
            suppress_events._shared = self._local.data
            return self._local.data

    def""")
b('C26', FALLBACK, """    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:""", """    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if not fallback:""")
b('C26', FALLBACK, """    for name in path[len(current.path):]:
        new_current""", """    for name in path[len(node.path):] or path[-1:]:
        new_current""")
b('C26', FALLBACK, """                if count > 0:
                    raise
                value""", """                if count > 0 and self.__parent__ is not None:
                    raise
                value""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        except Exception:
            TreeLock(self).release()
            raise
        lock.release()
        return result""")
b('C27', LOCKING, """        root = node.root
        with""", """        root = node.root
        if isinstance(getattr(node, '_treelock', None), type(RLock())):
            root = node
        with""")
# -- serializer
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])""", """            if data.startswith('<UUID>:'):
                return uuid.UUID(data.split(':')[-1].split('-')[0] * 4)""")
b('C28', SERIALIZER, """        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]""",
  """        if isinstance(data, list):
            if not all(isinstance(it, (dict, list)) for it in data):
                return data
            return [self.decode(it, parent=parent) for it in data]""")
b('C29', SERIALIZER, """    for child in children:
        decoder.decode(child, parent=node)""", """    for child in children:
        if isinstance(child, dict) and child['__node__']['name'] in node:
            # created by node
            continue
        decoder.decode(child, parent=node)""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)""", """    for name, child in node.attrs.items():
        if child is not None:
            attrs[name] = encoder.default(child)""")
b('C29', SERIALIZER, """        if parent is not None:
            node = parent[name] = factory(**kw)""", """        if parent is not None and name:
            node = parent[name] = factory(**kw)""")
# -- the rest
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
        return child""", """            factory = self.factories.get(key)
            if factory is None:
                raise
            child = factory()
            if len(self.storage) < len(self.factories):
                self[key] = child
        return child""")
b('C31', UTILS, """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value""", """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        if name in context or not hasattr(context, name):
            context[name] = value
        else:
            setattr(context, name, value)""")
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]""",
  """        return list(dict(
            (v, k) for k, v in self.context.items()).items())""")
b('C33', REFERENCE, """    def node(self, uuid):
        return self._index.get(int(uuid))""", """    def node(self, uuid_):
        return self._index.get(int(uuid_))""")
b('C34', NODIFY, """            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))""",
  """            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[1]))""")
b('C35', UTILS, """        attribute_name = '_{}'.format(func.__name__)
""", """        attribute_name = '_{}'.format(func.__name__[:6])
""")
b('C40', COMMON, """    @default
    def uuid_factory(self):
        return uuid.uuid4()""", """    @override
    def uuid_factory(self):
        return uuid.uuid4()""")
b('C41', ATTRIBUTES, """        node = self if self.parent is None else self.parent
        name""", """        node = self.parent
        name""")
