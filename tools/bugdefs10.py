"""Tenth batch: plausible improvements with a flaw."""

# C01: adoption skipped for children already located by a subclass hook
b('C01', COMMON, """        if not INode.providedBy(val):
            _next(self, key, val)
            return
""", """        if not INode.providedBy(val) or (
                val.__parent__ is not None and val.__parent__ is self and
                self.get(key) is val):
            _next(self, key, val)
            return
""")
b('C01', COMMON, """            self[key] = default
            return default


@implementer(IAsAttrAccess)""", """            self.update({key: default} if default is not None else {})
            return default


@implementer(IAsAttrAccess)""")
b('C02', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        location = val.__name__, val.__parent__
        val.__name__, val.__parent__ = key, self
        stored = False
        try:
            _next(self, key, val)
            stored = True
        finally:
            if not stored and location[1] is not None:
                val.__name__, val.__parent__ = location
""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        except Exception:
            if key not in self:
                val.__name__ = old_name
                val.__parent__ = old_parent
            raise
""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""", """        if self.allow_non_node_childs:
            return _next(self, key, val)
        if inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not INode.providedBy(val) and val is not None:
            raise ValueError('Non-node childs are not allowed.')
""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""", """        if not self.allow_non_node_childs and not (
                INode.providedBy(val) or hasattr(val, '__name__')):
            raise ValueError('Non-node childs are not allowed.')
""")
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            for iuuid, node in val._index.items():
                if self._index.get(iuuid, node) is not node:
                    raise ValueError('Node with uuid already exists')
""")
b('C04', REFERENCE, """            val_index = val._index
            self._index.update(val._index)
""", """            val_index = val._index
            if len(val):
                self._index.update(val._index)
            else:
                self._index[int(val.uuid)] = val
""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                for iuuid, node in val_index.items():
                    if self.node(iuuid) is node:
                        del self._index[iuuid]
                        node._index = val_index
                val._index = val_index = dict(val_index)
                raise
""")
b('C05', REFERENCE, """        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node
""", """        if hasattr(node, '_index_nodes') and node._index is self._index:
            node._index = {int(node.uuid): node}
            node._index_nodes()
        elif hasattr(node, '_index_nodes'):
            node._index_nodes()
            node._index[int(node.uuid)] = self._index.get(int(node.uuid))
        return node
""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        self._index[iuuid] = self
        self._uuid = uuid
        if siuuid != iuuid and uuid is not None:
            self._index.pop(siuuid, None)
""")
b('C05', REFERENCE, """            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """            self._index[uuid] = node
            if node._index is not self._index:
                node._index = self._index
                node._index_nodes()
""")
b('C06', ORDER, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        keys = self.keys()
        if not keys or keys[-1] == newnode.name:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-2 if len(keys) > 1 and
                            keys[-1].startswith('__') else -1]]
        self.insertafter(newnode, refnode)
""")
b('C06', ORDER, """            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
""", """            if self.node(node.uuid) is node:
                raise KeyError('Given node already contained in tree.')
""")
b('C06', ORDER, """        except Exception:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise
""", """        except (KeyError, ValueError):
            # refused by a behavior, e.g. because of duplicate uuids
            self.storage.pop(newnode.name)
            raise
""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)
""", """        if self.keys().index(node_a.name) > self.keys().index(node_b.name):
            return
        self.storage.swap(node_a.name, node_b.name)
""")
b('C07', STORAGE, """    def __getitem__(self, key):
        return self.storage[key]
""", """    def __getitem__(self, key):
        value = self.storage.get(key)
        if value is None:
            raise KeyError(key)
        return value
""")
b('C07', STORAGE, """    def __iter__(self):
        return self.storage.__iter__()
""", """    def __iter__(self):
        for key in list(self.storage):
            if key in self.storage and key:
                yield key
""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        try:
            return self[key] is not UNSET
        except KeyError:
            return False
""")
b('C08', MAPPING, """        return [self[key] for key in self]
""", """        values = dict((key, self[key]) for key in self)
        return list(values[key] for key in sorted(values, key=str))
""")
b('C09', MAPPING, """            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """            val = self[key]
        except KeyError:
            if default is UNSET:
                raise
            return default
        if val is not default:
            del self[key]
        return val
""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                if self.get(key) is not val:
                    self[key] = val
""")
b('C10', NODIFY, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        root = self
        while root.parent is not None and INode.providedBy(root.parent):
            root = root.parent
        return root
""")
b('C10', UTILS, """    node = root
    for name in path:
        node = node[name]
    return node
""", """    node = root
    for name in path:
        if name == '.':
            continue
        node = node[name]
    return node
""")
b('C11', COMMON, """            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
""", """            if override or not node.uuid:
                node.uuid = self.uuid_factory()
            recursiv = recursiv and node.overwrite_recursiv_on_copy
        if recursiv:
            for child in node.values():
""")
b('C11', NODIFY, """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        new = _next(self)
        if new.__parent__ is None:
            new.__parent__ = self.__parent__
        if not new.__name__:
            new.__name__ = self.name or None
        return new
""")
b('C12', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
""", """            val.__name__ = key
            val.__parent__ = self
            if key == '__children__' and val is not self:
                return
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
""")
b('C12', NODESPACE, """            return self.nodespaces[key]
        return _next(self, key)
""", """            if key in self.nodespaces:
                return self.nodespaces[key]
        return _next(self, key)
""")
b('C13', ATTRIBUTES, """        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
""", """        except KeyError:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            self['__attrs__'] = attrs
            if not len(attrs):
                self.nodespaces.setdefault('__attrs__', attrs)
                attrs = self.attributes_factory(name='__attrs__', parent=self)
                self.nodespaces['__attrs__'] = attrs
            del self.nodespaces['__attrs__']
            self.nodespaces['__attrs__'] = self.nodespaces.get(
                '__attrs__', self.attributes_factory('__attrs__', None))
""")
b('C13', ATTRIBUTES, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        if self.attribute_access_for_attrs and len(attrs):
            return AttributeAccess(attrs)
        return attrs
""")
b('C14', CACHE, """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        _next(self, key=key)
        cache = self.cache
        if key is not None:
            _evict(cache, key)
        else:
            for cached_key in _keys(cache):
                if cached_key not in self.keys():
                    _evict(cache, cached_key)
""")
b('C14', CACHE, """        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        except KeyError:
            child = _next(self, key)
            if child is not None:
                key = getattr(child, '__name__', None) or key
                cache[key] = child
            return child
""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
""", """            try:
                del storage[key]
            except KeyError:
                if not len(self):
                    raise
""")
b('C16', ALIAS, """            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser) \\
                        and len(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        return suffixed_key[:suffixed_key.rindex(suffix)] \\
            if suffix.strip() else suffixed_key
""")
b('C18', UTILS, """        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
""", """        elif isinstance(arg, dict):
            arg = dict([(k, self.decode(v)) if isinstance(k, UNICODE_TYPE)
                        else self.decode((k, v))
                        for k, v in sorted(iteritems(arg), key=repr) if v])
        elif isinstance(arg, bytes):
            try:
""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = decode((key, val)) if isinstance(key, bytes) \\
            else (key, decode(val) if isinstance(val, bytes) else val)
        return _next(self, key, val)
""")
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
""", """        if self._notify_suppress:
            return _next(self, key)
        delnode = self[key]
        _next(self, key)
        if key in self:
            return
""")
b('C20', LIFECYCLE, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
""", """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        except KeyError:
            self._notify_suppress = notify_suppress
            raise
        self._notify_suppress = notify_suppress
""")
b('C21', LIFECYCLE, """        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        parent = self.__parent__
        suppressed = parent._notify_suppress
        _next(self, key)
        if suppressed or not len(self):
            return
        objectEventNotify(parent.events['modified'](parent))
""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        bound = self.__subscribers__.get(event, list())
        for subscriber in list(bound):
            if subscriber in bound:
                subscriber(*args, **kw)
            elif bound is not self.__subscribers__.get(event):
                break
""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
""", """        changed = old_value is UNSET or value != old_value
        if self.always_dispatch or changed and storage:
""")
b('C23', EVENTS, """        return getattr(obj, self.storage).get(self.name, self.default)

""", """        value = getattr(obj, self.storage).get(self.name, UNSET)
        return value if value or self.default is UNSET else self.default

""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
        if not self.data.suppress or ALL_EVENTS in self.events:
            del self.data.events[:]
""")
b('C25', FALLBACK, """class fallback_processing(object):
    data = _processing_data()
""", """class fallback_processing(object):
    data = type('data', (), dict(processing=-1))()
""")
b('C26', FALLBACK, """    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
""", """    visited.update({node, parent})
    fallback = parent.get(parent.fallback_key, _marker)
""")
b('C26', FALLBACK, """        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
""", """        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(node, path=path, visited=visited) \\
                if current is node else _marker
""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            result = fn(self, *args, **kwargs)
            if inspect_isgenerator(result):
                return result
        return result
""", """# guards creation""", """def inspect_isgenerator(ob):
    return hasattr(ob, 'send') and not hasattr(ob, 'name')


# guards creation""")
b('C27', LOCKING, """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        root = node.root
        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            lock = RLock()
            with _creation_lock:
                if getattr(root, '_treelock', None) is None:
                    root._treelock = lock
            self.lock = lock
""")
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """            if data.startswith('<UUID>:') and parent is None:
                return uuid.UUID(data[7:])
            return data
""")
b('C29', SERIALIZER, """        if parent is not None:
            node = parent[name] = factory(**kw)
""", """        if parent is not None and name is not None and name not in parent:
            node = parent[name] = factory(**kw)
        elif parent is not None:
            node = parent[name]
""")
b('C29', SERIALIZER, """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs.setdefault(name.lower(), encoder.default(child))
""")
b('C30', COMMON, """        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        except KeyError:
            child = self.factories[key]()
            if child is not None and len(self.factories) >= 1:
                self[key] = child
            child = self.get(key) if key in self.factories else child
        return child
""")
b('C31', UTILS, """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value
""", """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        if name in context or not name.startswith('__'):
            context[name] = value
        else:
            object.__setattr__(self, name, value)
""")
b('C32', UTILS, """    def values(self):
        return [key for key in self.context]
""", """    def values(self):
        return [self[value] for value in self]
""")
b('C22', EVENTS, """    def bind(self, **kw):
""", """    def bind(self, events=None, **kw):
""")
b('C34', NODIFY, """        for key, value in items:
            if INode.providedBy(value):
""", """        for key, value in items:
            if value is self:
                continue
            if INode.providedBy(value):
""")
b('C34', NODIFY, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        seen = list()
        for val in self.itervalues():
            if interface.providedBy(val) and val.name not in seen:
                seen.append(val.name)
                yield val
""")
b('C35', UTILS, """        f_result = func(*args, **kws)
""", """        try:
            f_result = func(*args, **kws)
        except TypeError:
            f_result = func(*args)
""")
b('C40', COMMON, """    fixed_children_factories = default(None)
""", """    fixed_children_factories = override(None)
""")
b('C41', NODIFY, """        class_name = self.__class__.__name__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return '<{} object""", """        class_name = self.__class__.__name__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else '/'.join(self.path[-1:]) if self.parent is None \\
            else str(self.name)
        return '<{} object""")
b('C22', EVENTS, "    def dispatch(self, event, *args, **kw):", "    def dispatch(self, event, *args, default=None, **kw):")
b('C22', EVENTS, "    def dispatch(self, event, *args, **kw):", "    def dispatch(self, event, *args, delay=None, **kw):", "            subscriber(*args, **kw)\n", "            if delay:\n                delay(subscriber, *args, **kw)\n            else:\n                subscriber(*args, **kw)\n")
b('C27', LOCKING, "    def _locktree_decorator(self, *args, **kwargs):\n", "    def _locktree_decorator(self, *args, locked=False, **kwargs):\n        if locked:\n            return fn(self, *args, **kwargs)\n")
b('C35', UTILS, "    def wrapped(*args, **kws):\n", "    def wrapped(*args, level=None, **kws):\n")
