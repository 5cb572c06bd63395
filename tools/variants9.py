"""Rewrites collecting first and applying later, and with helper objects."""
REFACTORINGS9 = []


def R(rel, *edits):
    REFACTORINGS9.append((rel, tuple(
        (edits[i], edits[i + 1]) for i in range(0, len(edits), 2))))


B = 'behaviors/'

# two phases
R('serializer.py', """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    encoded = dict()
    for name, child in node.attrs.items():
        encoded[name] = encoder.default(child)
    data.setdefault('attrs', dict()).update(encoded)
""")
R('serializer.py', """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data['attrs'] = dict(
        (name, encoder.default(child)) for name, child in node.attrs.items())
""")
R('serializer.py', """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    decoded = dict()
    for attr, value in attrs.items():
        decoded[attr] = decoder.decode(value)
    for attr in decoded:
        node.attrs[attr] = decoded[attr]
""")
R('serializer.py', """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    node_attrs = node.attrs
    pairs = [(attr, decoder.decode(value)) for attr, value in attrs.items()]
    for attr, value in pairs:
        node_attrs[attr] = value
""")
R('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for callback in _applicable(serializer.registry, ob):
                callback(self, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for callback in _applicable(deserializer.registry, node):
                callback(self, node, node_data)
            return node
""", """class serializer(_serializer_registry):
""", """def _applicable(registry, ob):
    \"\"\"Iterate callbacks of registry applying to object.
    \"\"\"
    for cls, callback in registry.items():
        if issubclass(cls, Interface) and cls.providedBy(ob):
            yield callback
        elif isinstance(ob, cls):
            yield callback


class serializer(_serializer_registry):
""")
R('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            callbacks = [
                callback for cls, callback in serializer.registry.items()
                if issubclass(cls, Interface) and cls.providedBy(ob)
                or isinstance(ob, cls)
            ]
            for callback in callbacks:
                callback(self, ob, data)
            return ret
""")
R('serializer.py', """        if isclass(ob) or ismethod(ob) or isfunction(ob):
            if self.simple_mode:
                return self.dotted_name(ob)
            return {'__ob__': self.dotted_name(ob)}
        # no custom serialization required
        return ob
""", """        if not any(check(ob) for check in (isclass, ismethod, isfunction)):
            # no custom serialization required
            return ob
        name = self.dotted_name(ob)
        return name if self.simple_mode else dict(__ob__=name)
""")
R('serializer.py', """        if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """        if data == '<UNSET>':
                return UNSET
            # decode UUID
            prefix = '<UUID>:'
            if data[:len(prefix)] == prefix:
                return uuid.UUID(data[len(prefix):])
            return data
""")
R(B + 'reference.py', """        for node in self.values():
            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """        nodes = list()
        for node in self.values():
            try:
                nodes.append((int(node.uuid), node))
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                pass
        for uuid, node in nodes:
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""")
R(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        children = [self[childkey] for childkey in self]
        for child in children:
            try:
                todel += child._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""")
R(B + 'reference.py', """            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
""", """            # nodes contained in val must share the index of this tree as well
            for iuuid, node in list(val_index.items()):
                self._index[iuuid] = node
                node._index = self._index
            val._index = self._index
""")
R(B + 'reference.py', """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                for iuuid in val_index:
                    self._index.pop(iuuid)
                    val_index[iuuid]._index = val_index
                val._index = val_index
                raise
""")
R(B + 'mapping.py', """        return [(key, self[key]) for key in self]
""", """        collected = dict()
        for key in self:
            collected[key] = self[key]
        return list(collected.items())
""")
R(B + 'mapping.py', """        return [self[key] for key in self]
""", """        children = []
        for item in self.items():
            children.append(item[1])
        return children
""")
R(B + 'mapping.py', """        for key in self.keys():
            del self[key]

    @default
    def update""", """        def remove(key):
            del self[key]
        for key in self.keys():
            remove(key)

    @default
    def update""")
R(B + 'mapping.py', """            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """            self._set_items(data)
        self._set_items(iteritems(kw))

    @default
    def _set_items(self, pairs):
        for key, val in pairs:
            self[key] = val
""")
R(B + 'mapping.py', """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        def take():
            val = self[key]
            del self[key]
            return val
        try:
            return take()
        except KeyError:
            if default is not UNSET:
                return default
            raise
""")
R(B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        try:
            key = keys[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        item = (key, self[key])
        del self[key]
        return item
""")
R(B + 'events.py', """        for event, subscriber in kw.items():
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """        for event, subscriber in kw.items():
            self._check_event(event)
            bound = self.__subscribers__.get(event)
            if bound is None:
                self.__subscribers__[event] = [subscriber]
            elif subscriber not in bound:
                bound.append(subscriber)

    @finalize
    def _check_event(self, event):
        events = list(self.__events__) + list(self.__class__.__events__)
        if event not in events:
            raise UnknownEvent(event)
""")
R(B + 'events.py', """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        calls = [(subscriber, (self,) + args)
                 for subscriber in attribute_subscribers]
        # subscribers may be bound or unbound by the subscribers called
        bound = list(self.__subscribers__.get(event, list()))
        for subscriber, arguments in calls:
            subscriber(*arguments, **kw)
        for subscriber in bound:
            subscriber(*args, **kw)
""")
R(B + 'events.py', """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        suppressed = suppress_events.data.events
        if suppress_events.data.suppress and \\
                not {ALL_EVENTS, event}.isdisjoint(suppressed):
            return
""")
R(B + 'events.py', """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        if any(it in suppress_events.data.events
               for it in (ALL_EVENTS, event)):
            return
""")
R(B + 'events.py', """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
""", """        values = getattr(obj, self.storage)
        del values[self.name]
        self._announce(obj, UNSET)

    def _announce(self, obj, value):
        _attribute_subscribers.subscribers = self.subscribers
        obj.dispatch(self.name, value)
""")
R(B + 'nodify.py', """            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """            res += self._child_repr(key, value, indent + 2, prefix)
        return res

    @override
    def _child_repr(self, key, value, indent, prefix):
        if INode.providedBy(value):
            return value.treerepr(indent=indent, prefix=prefix)
        return '{}{}: {}\\n'.format(indent * prefix, key, repr(value))
""")
R(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        from collections import deque
        return deque(LocationIterator(self), maxlen=1).pop()
""")
R(B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        if IInterface.providedBy(interface):
            def matches(node):
                return interface.providedBy(node) or \\
                    isinstance(node, interface)
        else:
            def matches(node):
                return isinstance(node, interface)
        node = self.parent
        while node is not None and not matches(node):
            node = node.parent
        return node
""")
R(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        pending = [node]
        while pending:
            current = pending.pop()
            if IUUIDAware.providedBy(current):
                if override or not current.uuid:
                    current.uuid = self.uuid_factory()
            if recursiv:
                # non-Node values have no uuid and no children
                pending.extend(
                    child for child in current.values()
                    if INode.providedBy(child))
""")
R(B + 'common.py', """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        with _located(val, key, self):
            _next(self, key, val)
""", """@implementer(IAdopt)
""", """class _located(object):

    def __init__(self, node, name, parent):
        self.node = node
        self.location = node.__name__, node.__parent__
        node.__name__ = name
        node.__parent__ = parent

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc_type is not None:
            self.node.__name__, self.node.__parent__ = self.location


@implementer(IAdopt)
""")
R(B + 'common.py', """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        def create(key, factory):
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            return key, child
        for key, child in [create(*it)
                           for it in self.fixed_children_factories]:
            self._children[key] = child
""")
R(B + 'cache.py', """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicting(self.cache, key):
            _next(self, key, value)
""", """@implementer(ICache)
""", """class _evicting(object):

    def __init__(self, cache, key):
        self.cache = cache
        self.key = key

    def __enter__(self):
        _evict(self.cache, self.key)

    def __exit__(self, exc_type, exc, tb):
        # reading the child down the plumbing chain populates the cache
        _evict(self.cache, self.key)


@implementer(ICache)
""")
R(B + 'cache.py', """def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
""", """def _evict(cache, key):
    cache.pop(key, None)
""", """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        if key is None:
            for cached_key in _keys(self.cache):
                _evict(self.cache, cached_key)
        else:
            _evict(self.cache, key)
        _next(self, key=key)
""")
R(B + 'fallback.py', """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    depth = len(node.path)
    names = path[depth:]
    for name in names:
        child = node.get(name, _marker)
        if child is _marker:
            break
        node = child
    else:
        return node
    return _to_root(node, path=path, visited=visited)
""")
R(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if not count:
                    path = self.path
                    path.append(key)
                    value = _to_root(self, path=path, visited=set())
                    if value is not _marker:
                        return value
            raise
""")
R(B + 'lifecycle.py', """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _next(self, key, val)
        self._announce('added', val, newParent=self, newName=key)

    @default
    def _announce(self, name, node, **kw):
        if not self._notify_suppress:
            objectEventNotify(self.events[name](node, **kw))
""", """        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        _next(self, key)
        self._announce('removed', delnode, oldParent=self, oldName=key)
""")
R(B + 'alias.py', """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        unalias = getattr(self.aliaser, 'unalias', lambda key: key)
        unaliased_key = unalias(key)
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""")
R(B + 'alias.py', """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        with _KeyErrors(key) as errors:
            return _next(self, _unaliased(self.aliaser, key))
""", """@implementer(IAlias)
""", """def _unaliased(aliaser, key):
    return key if aliaser is None else aliaser.unalias(key)


class _KeyErrors(object):

    def __init__(self, key):
        self.key = key

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc_type is not None and issubclass(exc_type, KeyError):
            raise KeyError(self.key)


@implementer(IAlias)
""")
R('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        inverse = [(val, key) for val, key in self.items()]
        for val, key in inverse:
            if val == value:
                return key
        raise KeyError(value)
""")
R('utils.py', """    def wrapped(*args, **kws):
        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
""", """    name = func_name(func)

    def log(message, *values):
        logger.debug(message.format(name, *map(UNICODE_TYPE, values)))

    def wrapped(*args, **kws):
        log(u'{}: args={}, kws={}', args, kws)
        f_result = func(*args, **kws)
        log(u'{}: --> {}', f_result)
        return f_result
""")
R('locking.py', """    def _locktree_decorator(self, *args, **kwargs):
        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """    def _locktree_decorator(self, *args, **kwargs):
        call = lambda: fn(self, *args, **kwargs)  # noqa
        with TreeLock(self):
            return call()
""")
R(B + 'order.py', """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(self.storage.insertbefore, newnode, refnode)

    @override
    def _insert(self, insert, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(self.storage.insertafter, newnode, refnode)
""")
R(B + 'nodespace.py', """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
""", """        target = self.nodespaces if _is_reserved(key) else None
        if target is not None:
            return target[key]
        return _next(self, key)
""", """@implementer(INodespaces)
""", """def _is_reserved(key):
    if not isinstance(key, STR_TYPE):
        return False
    return key[:2] == '__' and key[-2:] == '__'


@implementer(INodespaces)
""")
