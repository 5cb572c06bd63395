# fifth batch: written from the statements alone
# -- location, rollback, validation
b('C01', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:""", """        old_name = val.__name__
        old_parent = val.__parent__
        if (old_name, old_parent) == (key, self):
            # already located, e.g. by an ordered insertion
            _next(self, key, val)
            return
        val.__parent__ = self
        if old_parent is not self:
            val.__name__ = key
        try:""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except""", """        val.__name__ = key
        val.__parent__ = self
        try:
            if old_parent is not None and old_parent is not self \\
                    and old_name in old_parent:
                val.__parent__ = old_parent
            _next(self, key, val)
        except""")
b('C01', NODIFY, """    def detach(self, key):
        node = self[key]
        del self[key]
        return node""", """    def detach(self, key):
        node = self[key]
        del self[key]
        for sibling in self.values():
            if sibling is node:
                sibling.__parent__ = None
        return node""")
b('C01', NODIFY, """        self.__name__ = name
        self.__parent__ = parent""", """        self.__name__ = name
        self.__parent__ = parent if name is not None else None""")
b('C01', COMMON, """            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child""", """            child = factory()
            child.__name__ = key
            self._children[key] = child
        for child in self._children.values():
            if child.__parent__ is None:
                child.__parent__ = self""")
b('C01', ORDER, """            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]""", """            self._validateinsertion(newnode)
            self.storage[newnode.name] = newnode
            return
        refnode = self[keys[0]]""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception:
            if key not in self:
                val.__name__ = old_name
                val.__parent__ = old_parent
            raise""")
b('C02', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        if old_parent is not None and old_parent is not self:
            val.__parent__ = None
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            if isinstance(key, int):
                return
            raise""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):""",
  """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and \\
                not INode.providedBy(val) and not hasattr(val, '__parent__'):""")
b('C03', COMMON, """            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)""", """            raise ValueError('Non-node childs are not allowed.')
        if val is self:
            return
        _next(self, key, val)""")
# -- reference
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:""", """            for node in list(val._index.values()):
                if node.root is val:
                    node._index = self._index
            val._index = self._index
            try:""")
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError""", """            keys = set(self._index.keys())
            if val._index is not self._index and \\
                    keys.intersection(val._index.keys()):
                raise ValueError""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""", """                for iuuid, node in val_index.items():
                    self._index.pop(iuuid, None)
                    if node is not val:
                        node._index = val_index
                val._index = dict(val_index)
                raise""")
b('C04', REFERENCE, """        return self._index.get(int(uuid))""",
  """        node = self._index.get(int(uuid))
        if node is not None and node.__parent__ is None:
            return self
        return node""")
b('C05', REFERENCE, """        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the""", """        try:
            _next(self, key)
        except KeyError:
            # not stored, nothing to keep
            raise
        except Exception:
            self._index.update(removed)
            raise
        # the""")
b('C05', REFERENCE, """        for node in removed.values():
            node._index = removed""", """        for node in removed.values():
            node._index = dict(removed)""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]""", """        siuuid = int(self._uuid) if self._uuid else None
        if siuuid in self._index and siuuid > 0:
            del self._index[siuuid]""")
b('C05', REFERENCE, """            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node""", """            node._index = {int(node.uuid): node}
            if len(node):
                node._index_nodes()
            node._index.setdefault(int(self.uuid), self)
        return node""")
b('C05', REFERENCE, """            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()""", """            if uuid in self._index:
                continue
            self._index[uuid] = node
            node._index_nodes()
            node._index = self._index""")
# -- order, storage
b('C06', ORDER, """    def swap(self, node_a, node_b):
        self.storage.swap(node_a.name, node_b.name)""", """    def swap(self, node_a, node_b):
        keys = self.keys()
        if abs(keys.index(node_a.name) - keys.index(node_b.name)) == 1:
            first = min(node_a, node_b, key=lambda n: keys.index(n.name))
            last = node_b if first is node_a else node_a
            self.storage.movebefore(first.name, last.name)
            return
        self.storage.swap(node_a.name, node_b.name)""")
b('C06', ORDER, """        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)""", """        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            if len(self.storage):
                raise ValueError('Given reference node not child of self.')
            self.storage[newnode.name] = newnode
        self._setinserted(newnode)""")
b('C06', ORDER, """        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]""", """        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        if newnode.name == keys[-1]:
            # already there
            return
        refnode = self[keys[-1]]""")
b('C07', STORAGE, """    @override
    def __setitem__(self, key, val):
        self.storage[key] = val""", """    @override
    def __setitem__(self, key, val):
        storage = self.storage
        if key in storage and storage[key] == val:
            return
        storage[key] = val""")
b('C07', STORAGE, """    @override
    def __iter__(self):
        return self.storage.__iter__()""", """    @override
    def __iter__(self):
        return iter(sorted(self.storage) if len(self.storage) == 2
                    else self.storage)""")
# -- mapping
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True""", """        try:
            return self[key] is not None
        except KeyError:
            return False""")
b('C08', MAPPING, """        for key in self:
            yield key, self[key]""", """        previous = None
        for key in self:
            if key is previous:
                continue
            previous = key
            yield key, self[key]""")
b('C08', MAPPING, """        return [self[key] for key in self]""",
  """        res = dict((key, self[key]) for key in self)
        return list(res.values())""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return [(key, self.get(key)) for key in self]""")
b('C09', MAPPING, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default""", """        if key not in self.keys():
            self[key] = default
            return default
        return self[key]""")
b('C09', MAPPING, """            if default is UNSET:
                raise
            val = default
        return val""", """            if default is UNSET or default == UNSET:
                raise
            val = default
        return val""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        for key in reversed(self.keys()):
            try:
                del self[key]
            except KeyError:
                break""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in list(data):
                if kw and key in kw:
                    continue
                self[key] = val""")
# -- path, root, acquire
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()""", """        path = [parent.name for parent in LocationIterator(self)
                if parent is self or parent.name]
        path.reverse()""")
b('C10', NODIFY, """        node = self.parent
        while node is not None:
            if""", """        node = self.parent
        while node is not None and node is not self.root:
            if""")
b('C10', UTILS, """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)""", """    while obj is not None:
        yield obj
        parent = getattr(obj, '__parent__', None)
        obj = parent if parent is not obj else None
        if obj is not None and getattr(obj, '__name__', None) == '':
            obj = None""")
b('C10', UTILS, """    for name in path:
        node = node[name]
    return node""", """    for name in path:
        if not name:
            continue
        node = node[name]
    return node""")
# -- copies
b('C11', NODIFY, """        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new""", """        new.__name__ = self.__name__
        if self.__parent__ is not None:
            new.__parent__ = self.__parent__.root
        return new""")
b('C11', COMMON, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied""", """        copied = _next(self)
        self.set_uuid_for(copied, True, False)
        if self.overwrite_recursiv_on_copy:
            for child in copied.values():
                self.set_uuid_for(child, False, True)
        return copied""")
b('C11', COMMON, """                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)""",
  """                if INode.providedBy(child):
                    child.set_uuid_for(child, override, recursiv)""")
b('C11', COMMON, """            if override or not node.uuid:
                node.uuid = self.uuid_factory()""", """            if override or not node.uuid:
                node.uuid = node.uuid_factory()
                if node.uuid == self.uuid and node is not self:
                    return""")
# -- nodespaces, attributes
b('C12', NODESPACE, """            del self.nodespaces[key]
            return
        _next(self, key)""", """            self.nodespaces[key] = None
            del self.nodespaces[key]
            if key in self:
                _next(self, key)
            return
        _next(self, key)""")
b('C12', NODESPACE, """            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces""", """            self._nodespaces = odict()
        self._nodespaces.setdefault('__children__', self)
        return self._nodespaces""")
b('C12', NODESPACE, """            return self.nodespaces[key]
        return _next(self, key)""", """            return self.nodespaces.get(key) or _next(self, key)
        return _next(self, key)""")
b('C13', ATTRS, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs""", """        try:
            attrs = self.nodespaces['__attrs__']
            if attrs.parent is not self:
                raise KeyError
        except KeyError:
            attrs""")
b('C13', ATTRS, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)""", """        if self.attribute_access_for_attrs:
            attrs = self.nodespaces['__attrs__'] = AttributeAccess(attrs)
            return attrs""")
# -- cache
b('C14', CACHE, """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        cache = self.cache
        child = cache.get(key)
        if not child:
            child = _next(self, key)
            if child:
                cache[key] = child
        return child""")
b('C14', CACHE, """        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)""", """        _next(self, key, value)
        # reading the child down the plumbing chain populates the cache
        if self.cache.get(key) is not value:
            _evict(self.cache, getattr(value, '__name__', key))""")
b('C14', CACHE, """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """            for cached_key in _keys(cache):
                if cached_key in self:
                    del cache[cached_key]
        _next(self, key=key)""")
b('C15', CACHE, """                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:""", """                try:
                    del self[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]""", """            for key in _keys(self):
                storage.pop(key, None)""")
# -- alias
b('C16', ALIAS, """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)""", """        try:
            _next(self, unaliased_key, val)
        except KeyError:
            if self.aliaser is None:
                raise
            _next(self, key, val)""")
b('C16', ALIAS, """            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):""",
  """            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser) \\
                        and len(self.aliaser):""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]""",
  """        return suffixed_key[:suffixed_key.rindex(suffix)] \\
            if suffix else suffixed_key.rstrip()""")
b('C17', ALIAS, """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e""", """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict and aliased_key not in self.values():
                return aliased_key
            raise e""")
b('C17', ALIAS, """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key""", """        for aliaser in self.chain:
            try:
                key = aliaser.alias(key)
            except KeyError:
                pass
        return key""")
# -- text
b('C18', UTILS, """                if not self._soft:
                    raise
        elif""", """                if not self._soft:
                    raise
                arg = arg.decode(self._encoding, 'ignore')
        elif""")
b('C18', UTILS, """            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            for key, value in list(iteritems(arg)):
                arg[key] = self.decode(value)
        elif isinstance(arg, bytes):
            try:""")
b('C19', COMMON, """    @plumb
    def __getitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)""", """    @plumb
    def __getitem__(_next, self, key):
        try:
            return _next(self, key)
        except KeyError:
            if isinstance(key, bytes):
                key = decode(key)
            return _next(self, key)""")
# -- lifecycle
b('C20', LIFECYCLE, """        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = False
        objectEventNotify""")
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return""", """        if self._notify_suppress:
            return _next(self, key)
        delnode = self.get(key)
        _next(self, key)
        if delnode is None:
            return""")
b('C20', LIFECYCLE, """        _next(self, *args, **kw)
        objectEventNotify(self.events['created'](self))""", """        try:
            _next(self, *args, **kw)
        finally:
            objectEventNotify(self.events['created'](self))""")
b('C21', LIFECYCLE, """    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:""", """    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress or not len(self):""")
# -- events
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)""", """            subscribers = self.__subscribers__.setdefault(event, list())
            if any(getattr(s, '__name__', s) == getattr(
                    subscriber, '__name__', subscriber) for s in subscribers):
                continue
            subscribers.append(subscriber)""")
b('C22', EVENTS, """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self""", """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                if not event.startswith('on_'):
                    raise UnknownEvent(event)
            subscribers = self""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        for subscriber in list(self.__subscribers__.get(event, list())):
            if subscriber in self.__subscribers__.get(event, list()):
                subscriber(*args, **kw)""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)""", """            for event, subscribers in self.__subscribers__.items():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                elif not subscribers:
                    break""")
b('C23', EVENTS, """        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:""", """        old_value = storage.get(self.name, self.default)
        if value != old_value:
            storage[self.name] = value
        if self.always_dispatch or value != old_value:""")
b('C23', EVENTS, """        del getattr(obj, self.storage)[self.name]
        with""", """        if getattr(obj, self.storage).pop(self.name, UNSET) is UNSET:
            return
        with""")
b('C24', EVENTS, """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)""", """        self.data.suppress += 1
        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)""",
  """        for event in self.events:
            self.data.events.remove(event)""", """        for event in self.events:
            if event in self.data.events:
                self.data.events.remove(event)""")
b('C24', EVENTS, """        if type_ not in (list, tuple):
            events = [events]
        self.events = events""", """        if type_ not in (list, tuple):
            events = [events]
        self.events = events or [ALL_EVENTS]""")
b('C25', EVENTS, """_attribute_subscribers = _subscribers_data()
""", """_attribute_subscribers = _subscribers_data()
_attribute_subscribers.default = list()
""", """        _attribute_subscribers.subscribers = list()
        if""", """        _attribute_subscribers.subscribers = _attribute_subscribers.default
        if""")
# -- fallback
b('C26', FALLBACK, """            with fallback_processing() as count:
                if count > 0:
                    raise
                value""", """            with fallback_processing() as count:
                if count > 1:
                    raise
                value""")
b('C26', FALLBACK, """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current""", """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(node, path=path[:-1] + [name], visited=visited)
        current = new_current
    return current""")
b('C26', FALLBACK, """    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:""", """    visited.update({node, parent})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker or not len(fallback):""")
# -- locking
b('C27', LOCKING, """            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()""", """            self.lock = node.__dict__.get('_treelock')
            if self.lock is None:
                self.lock = getattr(root, '_treelock', None) or RLock()
                root._treelock = node._treelock = self.lock""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            TreeLock(self).release()
        return result""")
# -- serializer
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])""", """            if data.startswith('<UUID>:'):
                return uuid.UUID(data.split(':')[-1][:32])""")
b('C28', SERIALIZER, """            if data == '<UNSET>':
                return UNSET""", """            if data.strip() == '<UNSET>':
                return UNSET""")
b('C28', SERIALIZER, """        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]""",
  """        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data
                    if it is not None]""")
b('C29', SERIALIZER, """            node = parent[name] = factory(**kw)
        else:""", """            kw.setdefault('name', name)
            node = parent[name] = factory(**kw)
        else:""")
b('C29', SERIALIZER, """    for child in children:
        decoder.decode(child, parent=node)""", """    for child in children:
        if isinstance(child, dict):
            node_data = child.get('__node__', {})
            if node_data.get('name') in node:
                continue
        decoder.decode(child, parent=node)""")
b('C29', SERIALIZER, """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)""", """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value, parent=node.attrs)""")
# -- children, access
b('C30', COMMON, """            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child""", """            child = _next(self, key)
        except KeyError:
            factory = self.factories[key]
            child = factory()
            if child:
                self[key] = child
        return child""")
b('C30', COMMON, """        self._children = odict()
        for key, factory in self.fixed_children_factories:""",
  """        self._children = odict()
        for key, factory in sorted(self.fixed_children_factories,
                                   key=lambda x: x[0]):""")
b('C31', UTILS, """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)""", """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            if name.endswith('_'):
                return getattr(self, name.rstrip('_'))
            raise AttributeError(name)""")
b('C31', COMMON, """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)""", """        try:
            return self[name]
        except (KeyError, AttributeError):
            try:
                return self[name.replace('_', '-')]
            except KeyError:
                raise AttributeError(name)""")
b('C32', UTILS, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)""", """        found = None
        for key in self.context:
            if self.context[key] == value:
                found = key
                break
        if not found:
            raise KeyError(value)
        return found""")
b('C32', UTILS, """        return len(self.context)


@implementer(IAttributeAccess)""", """        return len(set(self.keys()))


@implementer(IAttributeAccess)""")
b('C34', NODIFY, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val""", """        for val in self.itervalues():
            if val and interface.providedBy(val):
                yield val""")
b('C34', NODIFY, """                res += value.treerepr(indent=indent + 2, prefix=prefix)""",
  """                res += value.treerepr(
                    indent=indent + 2,
                    prefix=prefix if len(prefix) == 1 else ' ')""")
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""",
  """            value = func(self)
            object.__setattr__(self, attribute_name, value)
            return value""")
b('C35', UTILS, """        f_result = func(*args, **kws)
        logger.debug""", """        try:
            f_result = func(*args, **kws)
        except StopIteration:
            f_result = None
        logger.debug""")
b('C41', NODIFY, """    @default
    def __nonzero__(self):
        return True
""", """    @default
    def __nonzero__(self):
        return bool(self.__name__ is None or self.__name__ != '__empty__')
""")
