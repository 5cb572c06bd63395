"""Ninth batch: rewrites which go wrong in one case."""

# C01
b('C01', COMMON, """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        for key, factory in self.fixed_children_factories:
            self._children[key] = factory()
        for key, child in self._children.items():
            if child.__name__ is None:
                child.__name__ = key
            child.__parent__ = self
""")
b('C01', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
""", """            if key not in self.nodespaces:
                val.__name__ = key
                val.__parent__ = self
            self.nodespaces[key] = val
""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        relocated = old_parent is not self or old_name != key
        if relocated:
            val.__name__ = key
            val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
        if not relocated:
            return
        for child in (val, ):
            if child.name == old_name:
                child.__name__ = old_name
                child.__parent__ = old_parent
""")
# C02
b('C02', COMMON, """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        adopted = None
        try:
            adopted = _next(self, key, val) is None
        finally:
            if not adopted and old_parent is not None:
                val.__name__ = old_name
                val.__parent__ = old_parent
""")
b('C02', COMMON, """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        try:
            _next(self, key, val)
        except (KeyError, ValueError, TypeError, RuntimeError,
                AttributeError):
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""")
# C03
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if self.allow_non_node_childs or INode.providedBy(val) \\
                and not inspect.isclass(type(val)) or val is None:
            _next(self, key, val)
            return
        if inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""", """        if not self.allow_non_node_childs and \\
                not (INode.providedBy(val) or hasattr(val, '__parent__')):
            raise ValueError('Non-node childs are not allowed.')
""")
# C04
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            small, big = sorted((self._index, val._index), key=len)
            if len(small) > 1 and any(iuuid in big for iuuid in small) or \\
                    int(val.uuid) in self._index:
                raise ValueError('Node with uuid already exists')
""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                for iuuid in val_index:
                    node = self._index.pop(iuuid)
                    if node.parent is not val:
                        node._index = val_index
                val._index = val_index
                raise
""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
""", """            for node in list(val._index.values()):
                if node.parent is val:
                    node._index = self._index
            val._index = self._index
""")
b('C04', REFERENCE, """            self._index.update(val._index)
""", """            for iuuid, node in val._index.items():
                self._index.setdefault(iuuid, self if node is val else node)
""")
# C05
b('C05', REFERENCE, """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        try:
            for child in self.values():
                todel += child._to_delete()
        except AttributeError:
            # Non-Node values or non referencing children are not told
            # about deletion.
            pass
        return todel
""")
b('C05', REFERENCE, """        for node in self.values():
            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """        for node in self.values():
            uuid = getattr(node, 'uuid', None)
            if not uuid:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[int(uuid)] = node
            if node._index is not self._index:
                node._index_nodes()
            node._index = self._index
""")
b('C05', REFERENCE, """        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        if siuuid in self._index and iuuid is not None:
            self._index[iuuid] = self._index.pop(siuuid)
        else:
            self._index[iuuid] = self
        self._uuid = uuid
""")
b('C05', REFERENCE, """        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
""", """        try:
            _next(self, key)
        finally:
            if key in self:
                self._index.update(removed)
        # the deleted nodes are a tree on their own now
        for iuuid in sorted(removed)[1:]:
            removed[iuuid]._index = removed
""")
# C06
b('C06', ORDER, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        refnode = None
        for key in self.keys():
            if key == newnode.name:
                continue
            refnode = self[key]
        if refnode is None:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        self.insertbefore(newnode, refnode)
        self.swap(newnode, refnode)
""")
b('C06', ORDER, """        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        if self.get(node.name) is not None and node.parent is not self:
            raise KeyError('Given node name already contained in node.')
""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)
""", """        keys = self.keys()
        a, b = keys.index(node_a.name), keys.index(node_b.name)
        if abs(a - b) > 0:
            keys[a], keys[b] = keys[b], keys[a]
        for key in keys[min(a, b):]:
            val = self.storage[key]
            del self.storage[key]
            self.storage[key] = val
            if key == keys[max(a, b)]:
                break
""")
# C07
b('C07', STORAGE, """class OdictStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return odict()
""", """class OdictStorage(Storage):
    _default_storage = default(odict())

    @default
    @instance_property
    def storage(self):
        return self._default_storage.copy() \\
            if self._default_storage else self._default_storage
""")
b('C07', STORAGE, """        self.storage[key] = val
""", """        storage = self.storage
        if key in storage and storage[key] == val:
            return
        storage[key] = val
""")
# C08
b('C08', MAPPING, """        for key in self:
            yield key, self[key]
""", """        last = UNSET
        for key in self:
            if last != key:
                yield key, self[key]
            last = self[key]
""")
b('C08', MAPPING, """        return [self[key] for key in self]
""", """        return list(filter(None, (self[key] for key in self)))
""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]
""", """        return list(dict((key, self[key]) for key in self).items())
""")
b('C08', MAPPING, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        value = default
        try:
            value = self[key]
        finally:
            return value

    @default
    def __contains__""")
# C09
b('C09', MAPPING, """        for key in self.keys():
            del self[key]

    @default
    def update""", """        keys = self.keys()
        for key in keys[1:]:
            del self[key]
        if keys and len(self.keys()) == 1:
            self.popitem()

    @default
    def update""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            data = dict(data)
            data.update(kw)
            kw = data
        for key in sorted(kw, key=str):
            self[key] = kw[key]
""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        for key, val in reversed(self.items()):
            if val is None:
                continue
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""")
# C10
b('C10', NODIFY, """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        check = isinstance
        if IInterface.providedBy(interface):
            def check(node, interface):
                return interface in interface.implementedBy(node.__class__)
        for node in list(LocationIterator(self))[1:]:
            if check(node, interface):
                return node
""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = []
        for parent in LocationIterator(self):
            if parent.name is None and path:
                break
            path.append(parent.name)
        path.reverse()
        return path
""")
b('C10', UTILS, """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        path = [name for name in path.split('/') if name.strip()]
    node = root
    for name in path:
        if name == node.name:
            continue
        node = node[name]
    return node
""")
# C11
b('C11', COMMON, """            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """            if override or not node.uuid:
                node.uuid = self.uuid_factory()
            if not recursiv:
                return
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""")
b('C11', COMMON, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied
""", """        copied = _next(self)
        override = copied.uuid == self.uuid
        self.set_uuid_for(copied, override, self.overwrite_recursiv_on_copy)
        for child in copied.values():
            if IUUIDAware.providedBy(child) and child.uuid is None:
                child.uuid = copied.uuid
        return copied
""")
# C12
b('C12', NODESPACE, """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            del self.nodespaces[key]
            return
        _next(self, key)
""", """        if isinstance(key, STR_TYPE) and key in self.nodespaces:
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            del self.nodespaces[key]
            return
        _next(self, key)
""")
b('C12', NODESPACE, """            return self.nodespaces[key]
        return _next(self, key)
""", """            try:
                return self.nodespaces[key]
            except KeyError:
                pass
        return _next(self, key)
""")
# C13
b('C13', ATTRIBUTES, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None or attrs.parent is not self:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
""")
# C14
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cached = cache.get(key)
        if cached is not None:
            return cached
        child = _next(self, key)
        cache[getattr(child, 'name', key)] = child
        return child
""")
b('C14', CACHE, """        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        _next(self, key, value)
        # reading the child down the plumbing chain populates the cache
        if self.cache.get(key) is not value:
            _evict(self.cache, key)
""")
# C15
b('C15', CACHE, """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        keys = [key] if key is not None else _keys(self)
        for key in keys:
            try:
                del self[key]
            except KeyError:
                if len(keys) > 0 and key not in keys[1:]:
                    continue
                raise
""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
""", """            if key in storage:
                del storage[key]
            elif key not in _keys(self):
                raise KeyError(key)
            else:
                storage.clear()
""")
# C16
b('C16', ALIAS, """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        keys = _next(self)
        if aliaser is None:
            return keys
        if IEnumerableMapping.providedBy(aliaser):
            # an enumerable aliaser whitelists, we skip non-listed keys
            listed = aliaser.values()
            keys = (key for key in keys if key in listed)
        return (aliaser.alias(key) for key in set(keys))
""")
b('C16', ALIAS, """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        try:
            _next(self, unaliased_key, val)
        except KeyError as e:
            if e.args != (unaliased_key,):
                raise KeyError(unaliased_key)
            raise KeyError(key)
""")
# C17
b('C17', ALIAS, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        chain = list(self.chain)
        while len(chain) > 2:
            key = chain.pop().unalias(key)
        for aliaser in chain[::-1]:
            try:
                key = aliaser.unalias(key)
            except KeyError:
                if aliaser is chain[-1]:
                    raise
        return key
""")
b('C17', ALIAS, """        suffix = self.suffix or ''
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        suffix = self.suffix or ''
        key, found, rest = suffixed_key.partition(suffix or suffixed_key)
        if suffix and not found or rest:
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return key or suffixed_key
""")
# C18
b('C18', UTILS, """            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
""", """            arg = dict([(k, self.decode(v)) if isinstance(k, tuple)
                        else self.decode((k, v)) for k, v in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
""")
# C19
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = [
            decode(arg) if isinstance(arg, (bytes, tuple)) else arg
            for arg in (key, val)
        ]
        return _next(self, key, val)
""")
# C20
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        replaced = self.get(key)
        _next(self, key, val)
        if self._notify_suppress or replaced is val:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""")
b('C20', LIFECYCLE, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
""", """        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            del self._notify_suppress
""")
# C21
b('C21', LIFECYCLE, """    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return
""", """    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress or not self.keys():
            return
""")
# C22
b('C22', EVENTS, """        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""", """        elif event is None and subscriber is not None:
            for event in self.__events__:
                subscribers = self.__subscribers__.get(event, list())
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""")
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            subscribers = self.__subscribers__.setdefault(event, list())
            for i in range(len(subscribers)):
                if subscribers[i] == subscriber:
                    subscribers.append(subscribers.pop(i))
                    break
            else:
                subscribers.append(subscriber)
""")
# C23
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
""", """        if self.always_dispatch or value != old_value \\
                and old_value is not UNSET:
""")
b('C23', EVENTS, """        return getattr(obj, self.storage).get(self.name, self.default)
""", """        storage = getattr(obj, self.storage)
        if self.default is not UNSET:
            return storage.setdefault(self.name, self.default)
        return storage.get(self.name, self.default)
""")
# C24
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.data.suppress -= 1
        del self.data.events[:len(self.events)]
""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        data = self.data
        data.suppress -= 1
        data.events = [it for it in data.events if it not in self.events]
""")
# C26
b('C26', FALLBACK, """    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
""", """    if not getattr(parent, 'fallback_key', _marker) or parent in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node, parent})
""")
b('C26', FALLBACK, """        current = new_current
    return current
""", """        current = new_current
        if current in visited:
            break
        visited.add(current)
    return current
""")
# C27
b('C27', LOCKING, """        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        try:
            self.lock = root._treelock
        except AttributeError:
            with _creation_lock:
                self.lock = root._treelock = RLock()
""")
b('C27', LOCKING, """        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with lock:
            result = fn(self, *args, **kwargs)
            if TreeLock(self).lock is not lock.lock:
                lock = TreeLock(self)
        return result
""")
# C28
b('C28', SERIALIZER, """        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
""", """        if isinstance(data, list):
            if not any(isinstance(it, (dict, list)) for it in data):
                return data
            return [self.decode(it, parent=parent) for it in data]
""")
# C29
b('C29', SERIALIZER, """    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in children:
        name = child.get('__node__', dict()).get('name')
        if name in node:
            continue
        decoder.decode(child, parent=node)
""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    for name, child in node.attrs.items():
        if child is None and encoder.simple_mode:
            continue
        attrs[name] = encoder.default(child)
""")
# C30
b('C30', COMMON, """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
            if child.__name__ != key:
                child = self[key]
        for other in self.factories:
            if other == key:
                return child
        raise KeyError(key)
""")
# C32
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]
""", """        return [(v, self[v]) for v in self]
""")
# C34
b('C34', NODIFY, """            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
""", """            else sorted(
                dict((UNICODE_TYPE(k), v) for k, v in self.items()).items())
""")
# C35
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """            value = func(self)
            if value is not None:
                setattr(self, attribute_name, value)
            return value
""")
# C40
b('C40', CACHE, """    @default
    @instance_property
    def cache(self):
""", """    @override
    @instance_property
    def cache(self):
""", """from plumber import default
""", """from plumber import default
from plumber import override
""")
# C41
b('C41', ATTRIBUTES, """        node = self if self.parent is None else self.parent
""", """        node = self.parent or self
        node = node if node.name else self
""")
