"""Larger rewrites as somebody else would make them."""
REFACTORINGS7 = []


def R(rel, *edits):
    REFACTORINGS7.append((rel, tuple(
        (edits[i], edits[i + 1]) for i in range(0, len(edits), 2))))


B = 'behaviors/'

# reference: helpers for moving subtrees between indexes
R(B + 'reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
        _next(self, key, val)
""", """            val_index = self._merge_index(val)
            try:
                _next(self, key, val)
            except Exception:
                self._split_index(val, val_index)
                raise
            return
        _next(self, key, val)

    @default
    def _merge_index(self, val):
        val_index = val._index
        if any(iuuid in self._index for iuuid in val_index):
            raise ValueError('Node with uuid already exists')
        self._index.update(val_index)
        for node in list(val_index.values()):
            node._index = self._index
        val._index = self._index
        return val_index

    @default
    def _split_index(self, val, val_index):
        for iuuid in val_index:
            node = self._index.pop(iuuid)
            node._index = val_index
        val._index = val_index
""")
R(B + 'reference.py', """        if INode.providedBy(val):
            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
""", """        if not INode.providedBy(val):
            return _next(self, key, val)
        if True:
            val_index = val._index
            if not self._index.keys().isdisjoint(val_index):
                raise ValueError('Node with uuid already exists')
""", """                val._index = val_index
                raise
            return
        _next(self, key, val)
""", """                val._index = val_index
                raise
""")
R(B + 'reference.py', """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
""", """        index = self._index
        node = self[key]
        collect = getattr(node, '_to_delete', None)
        removed = {}
        if collect is not None:
            removed = {iuuid: index.pop(iuuid) for iuuid in collect()}
        try:
            _next(self, key)
        except Exception:
            for iuuid in removed:
                index[iuuid] = removed[iuuid]
            raise
        # the deleted nodes are a tree on their own now
        for iuuid in removed:
            removed[iuuid]._index = removed
""")
R(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        def as_int(value):
            return None if value is None else int(value)

        index = self._index
        new, old = as_int(uuid), as_int(self._uuid)
        if index.get(new, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        index.pop(old, None)
        index[new] = self
        self._uuid = uuid
""")
R(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        uuids = [int(self.uuid)]
        for childkey in self:
            child = self[childkey]
            if hasattr(child, '_to_delete'):
                uuids.extend(child._to_delete())
        return uuids
""", """        for node in self.values():
            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """        index = self._index
        for node in self.values():
            if not hasattr(node, 'uuid'):
                # non-Node values are a dead end, no magic for them
                continue
            index[int(node.uuid)] = node
            node._index = index
            node._index_nodes()
""")
# order
R(B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        self._insert_at(newnode, 0, self.insertbefore)
""", """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        self._insert_at(newnode, -1, self.insertafter)

    @override
    def _insert_at(self, newnode, position, insert):
        keys = self.keys()
        if keys:
            insert(newnode, self[keys[position]])
            return
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""")
R(B + 'order.py', """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(newnode, refnode, self.storage.insertbefore)
""", """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(newnode, refnode, self.storage.insertafter)

    @override
    def _insert(self, newnode, refnode, insert):
        self._validateinsertion(newnode)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
R(B + 'order.py', """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')""",
  """        name = node.name
        if name is None:
            raise ValueError('Given node has no __name__ set.')
        lookup = getattr(self, 'node', None)
        if lookup is not None and lookup(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')""")
# cache: context manager around changes
R(B + 'cache.py', """def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
""", """@contextmanager
def _evicted(cache, key):
    _evict(cache, key)
    try:
        yield
    finally:
        # reading the child down the plumbing chain populates the cache
        _evict(cache, key)


def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicted(self.cache, key):
            _next(self, key, value)
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicted(self.cache, key):
            _next(self, key)
""", "from node.compat import IS_PY2\n",
  "from contextlib import contextmanager\nfrom node.compat import IS_PY2\n")
R(B + 'cache.py', """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        cache = self.cache
        if key is None:
            cached = _keys(cache)
        else:
            cached = [key] if key in cache else []
        for cached_key in cached:
            del cache[cached_key]
        _next(self, key=key)
""")
R(B + 'cache.py', """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        storage = self.storage
        if key is None:
            for loaded in _keys(storage):
                del storage[loaded]
            return
        if key not in _keys(self):
            raise KeyError(key)
        # key is valid, but maybe not on storage right now
        if key in storage:
            del storage[key]
""")
# nodespaces: shared predicate
R(B + 'nodespace.py', """@implementer(INodespaces)
class""", """def is_nodespace(key):
    # isinstance check is required because odict tries to get item possibly
    # with ``_nil`` key, which is actually an object
    if not isinstance(key, STR_TYPE):
        return False
    return key.startswith('__') and key.endswith('__')


@implementer(INodespaces)
class""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
""", """        return self.nodespaces[key] if is_nodespace(key) \\
            else _next(self, key)
""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """        if not is_nodespace(key):
            _next(self, key, val)
            return
        # index checks below must not happen for other nodespace.
        val.__name__, val.__parent__ = key, self
        self.nodespaces[key] = val
""", """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            del self.nodespaces[key]
            return
        _next(self, key)
""", """        if is_nodespace(key):
            self.nodespaces.pop(key)
        else:
            _next(self, key)
""")
R(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is not None:
            return nodespaces
        nodespaces = self._nodespaces = odict([('__children__', self)])
        return nodespaces
""")
# alias: common translation
R(B + 'alias.py', """    @plumb
    def __getitem__(_next, self, key):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """    @default
    def _translated(self, func, key, *args):
        real_key = key if self.aliaser is None else self.aliaser.unalias(key)
        try:
            return func(self, real_key, *args)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __getitem__(_next, self, key):
        return self._translated(_next, key)
""", """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        self._translated(_next, key, val)
""", """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        self._translated(_next, key)
""")
R(B + 'alias.py', """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise""", """        aliaser = self.aliaser
        if aliaser is None:
            for key in _next(self):
                yield key
            return
        # an enumerable aliaser whitelists, we skip non-listed keys
        whitelisting = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            try:
                alias = aliaser.alias(key)
            except KeyError:
                if not whitelisting:
                    raise
            else:
                yield alias""")
# fallback without recursion of helpers
R(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                path = self.path + [key]
                value = _to_root(self, path=path, visited=set())
            if value is _marker:
                raise
            return value""")
R(B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    if getattr(parent, 'fallback_key', _marker) and node not in visited:
        visited.add(node)
        fallback = parent.get(parent.fallback_key, _marker)
        if fallback is not _marker:
            return _to_leaf(fallback, path=path, visited=visited)
    return _to_root(parent, path=path, visited=visited)
""")
# lifecycle: helper to notify
R(B + 'lifecycle.py', """    _notify_suppress = default(False)
""", """    _notify_suppress = default(False)

    @default
    def _notify(self, name, node, **kw):
        objectEventNotify(self.events[name](node, **kw))
""", """        objectEventNotify(self.events['created'](self))
""", """        self._notify('created', self)
""", """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _next(self, key, val)
        if not self._notify_suppress:
            self._notify('added', val, newParent=self, newName=key)
""", """        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        _next(self, key)
        if not self._notify_suppress:
            self._notify('removed', delnode, oldParent=self, oldName=key)
""", """        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
""", """        self._notify('detached', node, oldParent=self, oldName=key)
""")
R(B + 'lifecycle.py', """    @plumb
    def __setitem__(_next, self, key, val):
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """    @plumb
    def __setitem__(_next, self, key, val):
        _next(self, key, val)
        _modified(self.__parent__)

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        _modified(self.__parent__)


def _modified(node):
    if not node._notify_suppress:
        event = node.events['modified'](node)
        objectEventNotify(event)
""")
# events
R(B + 'events.py', """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        injected = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if _suppressed(event):
            return
        for subscriber in injected:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        bound = self.__subscribers__.get(event)
        for subscriber in tuple(bound or ()):
            subscriber(*args, **kw)


def _suppressed(event):
    data = suppress_events.data
    return data.suppress > 0 and (
        ALL_EVENTS in data.events or event in data.events)""")
R(B + 'events.py', """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if subscriber is None:
            if event is None:
                self.__subscribers__ = dict()
            else:
                self.__subscribers__.pop(event, None)
            return
        if event is None:
            affected = list(self.__subscribers__.values())
        else:
            affected = [self.__subscribers__.get(event, [])]
        for subscribers in affected:
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""")
R(B + 'events.py', """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events

    def __enter__(self):
        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress

    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.events = events if type(events) in (list, tuple) else [events]

    def __enter__(self):
        data = self.data
        data.events.extend(self.events)
        data.suppress = data.suppress + 1
        return data.suppress

    def __exit__(self, type_, value, traceback):
        data = self.data
        for event in self.events:
            data.events.remove(event)
        data.suppress = data.suppress - 1
""")
R(B + 'events.py', """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if value != old_value or self.always_dispatch:
            self._announce(obj, value)

    def _announce(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""", """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
""", """        storage = getattr(obj, self.storage)
        del storage[self.name]
        self._announce(obj, UNSET)
""")
# serializer
R('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for callback in _callbacks(serializer, ob):
                callback(self, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for callback in _callbacks(deserializer, node):
                callback(self, node, node_data)
            return node
""", """class serializer(_serializer_registry):""", """def _callbacks(kind, ob):
    res = []
    for cls, callback in kind.registry.items():
        if issubclass(cls, Interface) and cls.providedBy(ob):
            res.append(callback)
        elif isinstance(ob, cls):
            res.append(callback)
    return res


class serializer(_serializer_registry):""")
R('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if len(children) > 0:
        data['children'] = children
""", """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or []:
        decoder.decode(child, parent=node)
""", """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data.setdefault('attrs', dict()).update(
        (name, encoder.default(child)) for name, child in node.attrs.items())
""", """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    attrs = data.get('attrs') or {}
    for attr in attrs:
        node.attrs[attr] = decoder.decode(attrs[attr])
""")
R('serializer.py', """        # decode data from string
        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
        # return data as is if no dict
        if not isinstance(data, dict):
            return data
""", """        if isinstance(data, STR_TYPE):
            return self.decode_text(data)
        # decode data from list
        if isinstance(data, list):
            return list(map(lambda it: self.decode(it, parent=parent), data))
        if isinstance(data, dict):
            return self.decode_dict(data, parent)
        return data

    def decode_text(self, data):
        if data == '<UNSET>':
            return UNSET
        marker, sep, value = data.partition(':')
        if sep and marker == '<UUID>':
            return uuid.UUID(value)
        return data

    def decode_dict(self, data, parent):
""")
# utils
R('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        for val, key in self._pairs():
            if val == value:
                return key
        raise KeyError(value)

    def _pairs(self):
        for key in self.context:
            yield self.context[key], key
""", """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(val == value for val, key in self._pairs())
""")
R('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, bytes):
            return self._decode_bytes(arg)
        if isinstance(arg, (list, tuple)):
            return arg.__class__([self.decode(item) for item in arg])
        if isinstance(arg, dict) or INode.providedBy(arg):
            return {
                self.decode(key): self.decode(value)
                for key, value in iteritems(arg)
            }
        return arg

    def _decode_bytes(self, arg):
        try:
            return arg.decode(self._encoding)
        except UnicodeDecodeError:
            # in soft mode we leave the string, otherwise we raise the
            # exception
            if self._soft:
                return arg
            raise
""")
R('utils.py', """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        if not path:
            return root
        path = path.split('/')
    node = root
    for name in path or ():
        node = node[name]
    return node
""")
R('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = _lock_of(node.root)
""", """class TreeLock(object):
""", """def _lock_of(root):
    with _creation_lock:
        try:
            return root._treelock
        except AttributeError:
            lock = root._treelock = RLock()
            return lock


class TreeLock(object):
""")
R('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""")
# mapping
R(B + 'mapping.py', """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
""", """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        last = keys[-1]
        item = last, self[last]
        del self[last]
        return item
""")
R(B + 'mapping.py', """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        sources = list(args)
        sources.append(kw)
        for data in sources:
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
""")
# nodify
R(B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        def matches(node):
            if IInterface.providedBy(interface) \\
                    and interface.providedBy(node):
                return True
            return isinstance(node, interface)

        node = self.parent
        while node is not None and not matches(node):
            node = node.parent
        return node
""")
R(B + 'nodify.py', """        class_name = self.__class__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return str(class_name) + ': ' + name[name.find(':') + 1:]
""", """        name = _display_name(self)
        return '{}: {}'.format(self.__class__, name[name.find(':') + 1:])
""", """        class_name = self.__class__.__name__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return""", """        class_name = self.__class__.__name__
        name = _display_name(self)
        return""", """@implementer(INodify)
""", """def _display_name(node):
    if IS_PY2 and isinstance(node.name, unicode):
        return node.name.encode('ascii', 'replace')
    return str(node.name)


@implementer(INodify)
""")
R(B + 'nodify.py', """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        child_indent = indent + 2
        lines = ['{}{}\\n'.format(indent * prefix, self.noderepr)]
        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=lambda item: UNICODE_TYPE(item[0]))
        for key, value in items:
            if not INode.providedBy(value):
                lines.append('{}{}: {!r}\\n'.format(
                    child_indent * prefix, key, value))
                continue
            lines.append(value.treerepr(indent=child_indent, prefix=prefix))
        return ''.join(lines)
""")
# common
R(B + 'common.py', """        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        # save old __parent__ and __name__ to restore if something goes wrong
        location = val.__name__, val.__parent__
        _locate(val, key, self)
        try:
            _next(self, key, val)
        except Exception:
            _locate(val, *location)
            raise
""", """@implementer(IAdopt)
""", """def _locate(node, name, parent):
    node.__name__ = name
    node.__parent__ = parent


@implementer(IAdopt)
""", """            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """            child = self._children[key] = factory()
            _locate(child, key, self)
""")
R(B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            self._validate_child(val)
        _next(self, key, val)

    @default
    def _validate_child(self, val):
        if inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
""")
R(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if IUUIDAware.providedBy(node) and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        # non-Node values have no uuid and no children
        children = [c for c in node.values() if INode.providedBy(c)]
        for child in children:
            self.set_uuid_for(child, override=override, recursiv=True)
""")
R(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            nodespaces['__attrs__'] = self.attributes_factory(
                name='__attrs__',
                parent=self
            )
        attrs = nodespaces['__attrs__']
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs
""")
