"""(file below src/node, text, replacement) keeping the behaviour."""
R = 'behaviors/reference.py'
VARIANTS = []


def v(rel, old, *news):
    for n in news:
        VARIANTS.append((rel, old, n))


v(R, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            if any(k in self._index for k in val._index):
                raise ValueError('Node with uuid already exists')
""", """            if not set(self._index).isdisjoint(val._index):
                raise ValueError('Node with uuid already exists')
""", """            if set(self._index) & set(val._index):
                raise ValueError('Node with uuid already exists')
""", """            for k in val._index:
                if k in self._index:
                    raise ValueError('Node with uuid already exists')
""", """            dup = [k for k in val._index if k in self._index]
            if dup:
                raise ValueError('Node with uuid already exists')
""", """            if self._index.keys() & val._index.keys():
                raise ValueError('Node with uuid already exists')
""", """            if len(set(self._index) & set(val._index)) > 0:
                raise ValueError('Node with uuid already exists')
""", """            existing = set(self._index)
            dup = existing.intersection(set(val._index))
            if dup:
                msg = 'Node with uuid already exists'
                raise ValueError(msg)
""")
v(R, """            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
""", """            val_index = val._index
            for iuuid, node in val_index.items():
                self._index[iuuid] = node
                node._index = self._index
""", """            index, val_index = self._index, val._index
            index.update(val_index)
            for node in val_index.values():
                node._index = index
            val._index = index
""", """            val_index = val._index
            for node in val_index.values():
                node._index = self._index
            self._index.update(val_index)
            val._index = self._index
""")
v(R, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                val._index = val_index
                for iuuid in val_index:
                    node = self._index.pop(iuuid)
                    node._index = val_index
                raise
""", """                for iuuid in val_index:
                    del self._index[iuuid]
                for node in val_index.values():
                    node._index = val_index
                val._index = val_index
                raise
""")
v(R, """        if INode.providedBy(val):
            keys = set""", """        if not INode.providedBy(val):
            _next(self, key, val)
            return
        if True:
            keys = set""")
v(R, """                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """                removed[iuuid] = self._index.pop(iuuid)
""")
v(R, """        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
""", """        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
        _next(self, key)
        removed = dict()
        for iuuid in iuuids:
            removed[iuuid] = self._index.pop(iuuid)
        for node in removed.values():
            node._index = removed
""", """        if not hasattr(todel, '_to_delete'):
            _next(self, key)
            return
        removed = {i: self._index[i] for i in todel._to_delete()}
        _next(self, key)
        for iuuid, node in removed.items():
            del self._index[iuuid]
            node._index = removed
""")
v(R, """        node = _next(self, key)
        # non-Node values and non referencing children have no index
        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node
""", """        child = _next(self, key)
        if not hasattr(child, '_index_nodes'):
            return child
        index = dict()
        index[int(child.uuid)] = child
        child._index = index
        child._index_nodes()
        return child
""")
v(R, """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
""", """        iuuid = None
        if uuid is not None:
            iuuid = int(uuid)
        other = self._index.get(iuuid)
        if other is not None and other is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = None if self._uuid is None else int(self._uuid)
        self._index.pop(siuuid, None)
""", """        iuuid = int(uuid) if uuid is not None else None
        if self._index.get(iuuid, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        current = self._uuid
        siuuid = int(current) if current is not None else None
        try:
            del self._index[siuuid]
        except KeyError:
            pass
""")
v(R, """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for child in self.values():
            if hasattr(child, '_to_delete'):
                todel.extend(child._to_delete())
        return todel
""", """        result = list()
        result.append(int(self.uuid))
        for key in self:
            child = self[key]
            if not hasattr(child, '_to_delete'):
                continue
            for iuuid in child._to_delete():
                result.append(iuuid)
        return result
""")
v(R, """            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """            if not hasattr(node, 'uuid'):
                continue
            node._index = self._index
            self._index[int(node.uuid)] = node
            node._index_nodes()
""")
C = 'behaviors/cache.py'
v(C, """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        if key not in self.cache:
            self.cache[key] = _next(self, key)
        return self.cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        child = _next(self, key)
        cache[key] = child
        return child
""", """        cache = self.cache
        try:
            child = cache[key]
        except KeyError:
            child = cache[key] = _next(self, key)
        return child
""", """        missing = object()
        child = self.cache.get(key, missing)
        if child is missing:
            child = _next(self, key)
            self.cache[key] = child
        return child
""")
v(C, """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
""", """        _evict(self.cache, key)
        try:
            _next(self, key, value)
""", """        self.cache.pop(key, None)
        try:
            _next(self, key, value)
""")
v(C, """        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)

    @plumb
    def __iter""", """        try:
            _next(self, key)
        except Exception:
            _evict(self.cache, key)
            raise
        else:
            _evict(self.cache, key)

    @plumb
    def __iter""")
v(C, """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        if key is None:
            cache.clear()
        else:
            cache.pop(key, None)
        _next(self, key=key)
""", """        keys = _keys(cache) if key is None else [key]
        for cached_key in keys:
            cache.pop(cached_key, None)
        _next(self, key=key)
""")
v(C, """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        if key is None:
            for name in [k for k in self]:
                del self[name]
            return
        del self[key]
""", """        keys = [key] if key is not None else _keys(self)
        for child_key in keys:
            del self[child_key]
""", """        if key is None:
            self.clear()
        else:
            self.__delitem__(key)
""")
v(C, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """            if key not in _keys(self):
                raise KeyError(key)
            storage.pop(key, None)
            return
        storage.clear()
""", """            if not any(k == key for k in self):
                raise KeyError(key)
            if key in storage:
                del storage[key]
        else:
            for key in tuple(storage):
                del storage[key]
""")

AL = 'behaviors/alias.py'
v(AL, """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
""", """        aliaser = self.aliaser
        unaliased_key = key if aliaser is None else aliaser.unalias(key)
        try:
            child = _next(self, unaliased_key)
            return child
""", """        unaliased_key = key
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(unaliased_key)
        try:
            return _next(self, unaliased_key)
""")
v(AL, """            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """            except KeyError as e:
                if not IEnumerableMapping.providedBy(self.aliaser):
                    raise e
""")
v(AL, """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        for key in _next(self):
            if aliaser is None:
                yield key
                continue
            try:
                alias = aliaser.alias(key)
            except KeyError:
                if IEnumerableMapping.providedBy(aliaser):
                    continue
                raise
            yield alias
""", """        if self.aliaser is None:
            for key in _next(self):
                yield key
            return
        for key in _next(self):
            try:
                yield self.aliaser.alias(key)
            except KeyError:
                if not IEnumerableMapping.providedBy(self.aliaser):
                    raise
""")
v(AL, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        for aliaser in self.chain[::-1]:
            key = aliaser.unalias(key)
        return key
""", """        unaliased = key
        for aliaser in list(reversed(self.chain)):
            unaliased = aliaser.unalias(unaliased)
        return unaliased
""", """        import functools
        return functools.reduce(
            lambda k, a: a.unalias(k), reversed(self.chain), key)
""")
v(AL, """        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        if not suffix:
            return suffixed_key
        return suffixed_key[:-len(suffix)]
""", """        end = len(suffixed_key) - len(suffix)
        return suffixed_key[:end]
""", """        return suffixed_key[0:len(suffixed_key) - len(suffix)]
""")
v(AL, """        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        if prefixed_key.startswith(prefix):
            return prefixed_key[len(prefix):]
        raise KeyError(u"key '{}' does not match prefix '{}'".format(
            prefixed_key,
            prefix
        ))
""", """        if prefixed_key[:len(prefix)] != prefix:
            raise KeyError(prefixed_key)
        return prefixed_key[len(prefix):]
""")
v(AL, """        return (self.prefix or '') + key
""", """        prefix = self.prefix
        if not prefix:
            return key
        return prefix + key
""", """        return '{}{}'.format(self.prefix or '', key)
""", """        return ''.join((self.prefix or '', key))
""")
v(AL, """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        mapping = ReverseMapping(self)
        if not self.strict:
            return mapping.get(key, key)
        return mapping[key]
""", """        for k, v in self.items():
            if v == key:
                return k
        if self.strict:
            raise KeyError(key)
        return key
""")
v(AL, """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        if self.strict:
            return self[aliased_key]
        return self.get(aliased_key, aliased_key)
""", """        if aliased_key in self:
            return self[aliased_key]
        if self.strict:
            raise KeyError(aliased_key)
        return aliased_key
""")

UT = 'utils.py'
v(UT, """            arg = arg.__class__(map(self.encode, arg))
""", """            arg = type(arg)([self.encode(x) for x in arg])
""", """            arg = arg.__class__(self.encode(item) for item in arg)
""", """            converted = []
            for item in arg:
                converted.append(self.encode(item))
            arg = arg.__class__(converted)
""")
v(UT, """        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        elif isinstance(arg, dict) or INode.providedBy(arg):
            arg = {self.decode(k): self.decode(v) for k, v in iteritems(arg)}
        elif isinstance(arg, bytes):
            try:
                return arg.decode(self._encoding)
            except UnicodeDecodeError:
                if self._soft:
                    return arg
                raise
        return arg
""", """        elif isinstance(arg, dict):
            ret = {}
            for key, value in iteritems(arg):
                ret[self.decode(key)] = self.decode(value)
            return ret
        elif isinstance(arg, bytes):
            return self._decode_bytes(arg)
        elif INode.providedBy(arg):
            arg = dict(self.decode(t) for t in iteritems(arg))
        return arg

    def _decode_bytes(self, arg):
        try:
            return arg.decode(self._encoding)
        except UnicodeDecodeError as e:
            if not self._soft:
                raise e
        return arg
""", """        elif isinstance(arg, dict):
            arg = dict(map(self.decode, iteritems(arg)))
        elif INode.providedBy(arg):
            arg = dict([(self.decode(k), self.decode(arg[k])) for k in arg])
        elif isinstance(arg, bytes):
            if not self._soft:
                return arg.decode(self._encoding)
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                pass
        return arg
""")
v(UT, """            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
""", """            decoded = self.decode(arg)
            if isinstance(decoded, bytes):
                return arg
            return decoded.encode(self._encoding)
""", """            decoded = self.decode(arg)
            if isinstance(decoded, UNICODE_TYPE):
                decoded = decoded.encode(self._encoding)
            return decoded
""")
CO = 'behaviors/common.py'
v(CO, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        decoded = [decode(x) if isinstance(x, bytes) else x for x in (key, val)]
        _next(self, *decoded)
""", """        def text(value):
            if isinstance(value, bytes):
                return decode(value)
            return value
        _next(self, text(key), text(val))
""")

LC = 'behaviors/lifecycle.py'
v(LC, """        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
""", """        try:
            node = _next(self, key)
        except BaseException:
            self._notify_suppress = notify_suppress
            raise
        self._notify_suppress = notify_suppress
        event = self.events['detached'](node, oldParent=self, oldName=key)
        objectEventNotify(event)
        return node
""", """        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        self._notify('detached', node, oldParent=self, oldName=key)
        return node

    @default
    def _notify(self, name, node, **kw):
        objectEventNotify(self.events[name](node, **kw))
""")
v(LC, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
""", """        from contextlib import contextmanager

        @contextmanager
        def quiet():
            before = self._notify_suppress
            self._notify_suppress = True
            try:
                yield
            finally:
                self._notify_suppress = before
        with quiet():
            node = _next(self, key)
""")
v(LC, """        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        if not self._notify_suppress:
            objectEventNotify(self.events['added'](val, self, key))
""", """        if self._notify_suppress is True:
            return
        added = self.events['added']
        objectEventNotify(added(val, newName=key, newParent=self))
""")
v(LC, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        notify = not self._notify_suppress
        delnode = self[key]
        _next(self, key)
        if notify:
            objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                     oldName=key))
""", """        node = self[key]
        event = self.events['removed'](node, oldParent=self, oldName=key)
        _next(self, key)
        if not self._notify_suppress:
            objectEventNotify(event)
""")
v(LC, """        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        node = self.__parent__
        if node._notify_suppress:
            return
        objectEventNotify(node.events['modified'](node))
""", """        parent = self.parent
        if not parent._notify_suppress:
            modified = parent.events['modified']
            objectEventNotify(modified(parent))
""")

EVT = 'behaviors/events.py'
v(EVT, """        if event not in self.__events__:
            self.__events__.append(event)
""", """        if event in self.__events__:
            return
        self.__events__.append(event)
""", """        events = self.__events__
        if event not in events:
            events.append(event)
""", """        if event not in self.__events__:
            self.__events__ += [event]
""", """        if not event in self.__events__:
            self.__events__ = self.__events__ + [event]
""")
v(EVT, """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            known = event in self.__events__ or \\
                event in self.__class__.__events__
            if not known:
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = []
            subscribers = self.__subscribers__[event]
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            if event not in self.__events__:
                if event not in type(self).__events__:
                    raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, [])
            if subscriber in subscribers:
                continue
            subscribers.append(subscriber)
""", """            self._bind_one(event, subscriber)

    @finalize
    def _bind_one(self, event, subscriber):
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""")
v(EVT, """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if event is None and subscriber is None:
            self.__subscribers__.clear()
        elif subscriber is None:
            self.__subscribers__.pop(event, None)
        elif event is None:
            for subscribers in list(self.__subscribers__.values()):
                try:
                    subscribers.remove(subscriber)
                except ValueError:
                    pass
        else:
            subscribers = self.__subscribers__.get(event, ())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if subscriber is None:
            if event is None:
                self.__subscribers__ = {}
            elif event in self.__subscribers__:
                del self.__subscribers__[event]
            return
        if event is None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
            return
        if event in self.__subscribers__:
            subscribers = self.__subscribers__[event]
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            try:
                del self.__subscribers__[event]
            except KeyError:
                pass
        elif event is None and subscriber is not None:
            for ev in self.__subscribers__:
                if subscriber in self.__subscribers__[ev]:
                    self.__subscribers__[ev].remove(subscriber)
        elif event is not None and subscriber is not None:
            if subscriber in self.__subscribers__.get(event, []):
                self.__subscribers__[event].remove(subscriber)
""")
v(EVT, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = []
        data = suppress_events.data
        if data.suppress > 0 and (
                ALL_EVENTS in data.events or event in data.events):
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        for subscriber in tuple(self.__subscribers__.get(event, ())):
            subscriber(*args, **kw)""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if self._is_suppressed(event):
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        if event not in self.__subscribers__:
            return
        for subscriber in self.__subscribers__[event][:]:
            subscriber(*args, **kw)

    @finalize
    def _is_suppressed(self, event):
        suppressed = suppress_events.data.events
        return suppress_events.data.suppress > 0 and (
            ALL_EVENTS in suppressed or event in suppressed)""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            suppressed = suppress_events.data.events
            if any(ev in suppressed for ev in (ALL_EVENTS, event)):
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        subscribers = list(self.__subscribers__.get(event, list()))
        while subscribers:
            subscribers.pop(0)(*args, **kw)""")
v(EVT, """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        storage = getattr(obj, self.storage)
        changed = value != storage.get(self.name, self.default)
        storage[self.name] = value
        if changed or self.always_dispatch:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        old_value = self.__get__(obj)
        getattr(obj, self.storage)[self.name] = value
        if not self.always_dispatch and value == old_value:
            return
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""", """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            self._dispatch(obj, value)

    def _dispatch(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""", """        storage = getattr(obj, self.storage)
        old_value = self.default
        if self.name in storage:
            old_value = storage[self.name]
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""")
v(EVT, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        for event in self.events:
            self.data.events.remove(event)
        self.data.suppress -= 1
""", """        data = self.data
        data.suppress = data.suppress - 1
        for event in self.events:
            data.events.remove(event)
""")
v(EVT, """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        self.data.events.extend(self.events)
        self.data.suppress += 1
        return self.data.suppress
""", """        self.data.events += self.events
        self.data.suppress += 1
        return self.data.suppress
""", """        count = self.data.suppress + 1
        self.data.suppress = count
        for event in self.events:
            self.data.events.append(event)
        return count
""")
v(EVT, """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
""", """        if not isinstance(events, (list, tuple)):
            events = [events]
        self.events = events
""", """        self.events = events if type(events) in (list, tuple) else [events]
""", """        if type(events) not in (list, tuple):
            events = (events,)
        self.events = list(events)
""")
v(EVT, """    _attribute_subscribers.subscribers = subscribers
    yield
""", """    _attribute_subscribers.subscribers = list(subscribers)
    yield
""", """    data = _attribute_subscribers
    data.subscribers = subscribers
    yield
""", """    _attribute_subscribers.subscribers = subscribers
    try:
        yield
    finally:
        _attribute_subscribers.subscribers = list()
""")
v(EVT, """    if '__events__' not in cls.__dict__:
        # inherit events, but never share the list with the base class
        cls.__events__ = list(getattr(cls, '__events__', ()))
    events = cls.__events__
    for attr, val in dct.items():
        if isinstance(val, EventAttribute):
            if attr not in events:
                events.append(attr)
            val.name = attr
""", """    cls.__events__ = list(getattr(cls, '__events__', ()))
    for attr, val in dct.items():
        if not isinstance(val, EventAttribute):
            continue
        val.name = attr
        if attr not in cls.__events__:
            cls.__events__.append(attr)
""", """    if '__events__' not in vars(cls):
        inherited = getattr(cls, '__events__', [])
        cls.__events__ = inherited[:]
    for attr in dct:
        val = dct[attr]
        if isinstance(val, EventAttribute):
            if attr not in cls.__events__:
                cls.__events__.append(attr)
            val.name = attr
""", """    events = list(getattr(cls, '__events__', ()))
    for attr, val in dct.items():
        if isinstance(val, EventAttribute):
            if attr not in events:
                events.append(attr)
            val.name = attr
    cls.__events__ = events
""")
v(EVT, """        inst.__events__ = list()
        inst.__subscribers__ = dict()
        return inst
""", """        inst.__events__, inst.__subscribers__ = [], {}
        return inst
""", """        inst.__dict__.update(__events__=[], __subscribers__={})
        return inst
""", """        setattr(inst, '__events__', list())
        setattr(inst, '__subscribers__', dict())
        return inst
""")

FB = 'behaviors/fallback.py'
v(FB, """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                path = list(self.path)
                path.append(key)
                value = _to_root(self, path, set())
                if value is not _marker:
                    return value
                raise""", """        try:
            value = _next(self, key)
        except KeyError:
            processing = fallback_processing()
            count = processing.__enter__()
            try:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
            finally:
                processing.__exit__(None, None, None)
        return value""", """        try:
            return _next(self, key)
        except KeyError:
            value = self._lookup_fallback(key)
            if value is _marker:
                raise
            return value

    @default
    def _lookup_fallback(self, key):
        with fallback_processing() as count:
            if count > 0:
                return _marker
            return _to_root(self, path=self.path + [key], visited=set())""", """        try:
            value = _next(self, key)
        except KeyError as e:
            with fallback_processing() as count:
                if count > 0:
                    raise e
                value = _to_root(self, path=self.path + [key], visited=set())
            if value is _marker:
                raise KeyError(key)
        return value""")
v(FB, """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    fallback_key = getattr(parent, 'fallback_key', None)
    if fallback_key and node not in visited:
        visited.add(node)
        fallback = parent.get(fallback_key, _marker)
        if fallback is not _marker:
            return _to_leaf(fallback, path=path, visited=visited)
    return _to_root(parent, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    if node in visited or not getattr(parent, 'fallback_key', _marker):
        return _to_root(parent, path, visited)
    visited |= {node}
    try:
        fallback = parent[parent.fallback_key]
    except KeyError:
        return _to_root(parent, path, visited)
    return _to_leaf(fallback, path, visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.add(node)
    current = parent.get(parent.fallback_key, _marker)
    if current is _marker:
        return _to_root(parent, path=path, visited=visited)
    for name in path[len(current.path):]:
        child = current.get(name, _marker)
        if child is _marker:
            return _to_root(current, path=path, visited=visited)
        current = child
    return current
""")
v(FB, """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    subpath = path[len(node.path):]
    for name in subpath:
        try:
            node = node[name]
        except KeyError:
            return _to_root(node, path=path, visited=visited)
    return node
""", """    current = node
    depth = len(node.path)
    for name in path[depth:]:
        if name not in current:
            return _to_root(current, path=path, visited=visited)
        current = current[name]
    return current
""")
v(FB, """    def __enter__(self):
        self.data.processing += 1
        return self.data.processing
""", """    def __enter__(self):
        data = self.data
        data.processing = count = data.processing + 1
        return count
""")

LK = 'locking.py'
LKINIT = """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
"""
v(LK, LKINIT, """        root = node.root
        with _creation_lock:
            lock = getattr(root, '_treelock', None)
            if lock is None:
                lock = RLock()
                root._treelock = lock
            self.lock = lock
""", """        self.lock = self._lock_of(node.root)

    @staticmethod
    def _lock_of(root):
        with _creation_lock:
            try:
                return root._treelock
            except AttributeError:
                root._treelock = lock = RLock()
                return lock
""", """        root = node.root
        lock = getattr(root, '_treelock', None)
        if lock is None:
            with _creation_lock:
                lock = getattr(root, '_treelock', None)
                if lock is None:
                    lock = root._treelock = RLock()
        self.lock = lock
""", """        root = node.root
        _creation_lock.acquire()
        try:
            if not hasattr(root, '_treelock'):
                root._treelock = RLock()
            self.lock = root._treelock
        finally:
            _creation_lock.release()
""", """        self.lock = node.root.__dict__.setdefault('_treelock', RLock())
""", """        root = node.root
        with _creation_lock:
            if getattr(root, '_treelock', None) is None:
                setattr(root, '_treelock', RLock())
            self.lock = root._treelock
""")
v(LK, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""", """        lock = TreeLock(self)
        with lock:
            result = fn(self, *args, **kwargs)
        return result
""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            return fn(self, *args, **kwargs)
        finally:
            lock.release()
""", """        tree_lock = TreeLock(self).lock
        tree_lock.acquire()
        try:
            return fn(self, *args, **kwargs)
        except BaseException:
            raise
        finally:
            tree_lock.release()
""")
v(LK, """    def acquire(self):
        self.lock.acquire()

    __enter__ = acquire

    def release(self):
        self.lock.release()

    def __exit__(self, type, value, traceback):
        self.release()
""", """    def acquire(self):
        self.lock.acquire()

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.lock.release()
        return False
""")

SE = 'serializer.py'
v(SE, """        if simple_mode:
        def""", "") if 0 else None
v(SE, """    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    encoder_factory = NodeEncoder
    if simple_mode:
        def encoder_factory(**kw):
            return NodeEncoder(
                simple_mode=True,
                include_class=include_class,
                **kw
            )
    return json.dumps(ob, cls=encoder_factory)
""", """    if not simple_mode:
        return json.dumps(ob, cls=NodeEncoder)
    return json.dumps(ob, cls=lambda **kw: NodeEncoder(
        simple_mode=True, include_class=include_class, **kw))
""")
v(SE, """        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
        super(NodeEncoder, self).__init__(**kw)
""", """        self.simple_mode = kw.pop('simple_mode', self.simple_mode)
        self.include_class = kw.pop('include_class', self.include_class)
        super(NodeEncoder, self).__init__(**kw)
""", """        for option in ('simple_mode', 'include_class'):
            if option in kw:
                setattr(self, option, kw.pop(option))
        super().__init__(**kw)
""")
DEFNODE = """            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
"""
v(SE, DEFNODE, """            data = dict()
            if self.include_class or not self.simple_mode:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob) \\
                        or isinstance(ob, cls):
                    callback(self, ob, data)
            return data if self.simple_mode else {'__node__': data}
""", """            data = {'name': ob.__name__}
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            for cls in serializer.registry:
                callback = serializer.registry[cls]
                if issubclass(cls, Interface):
                    applies = cls.providedBy(ob)
                else:
                    applies = isinstance(ob, cls)
                if applies:
                    callback(self, ob, data)
            if self.simple_mode:
                return data
            return dict(__node__=data)
""", """            return self.node_data(ob)
        return self.other_data(ob)

    def other_data(self, ob):
        if isclass(ob) or ismethod(ob) or isfunction(ob):
            name = self.dotted_name(ob)
            return name if self.simple_mode else {'__ob__': name}
        return ob

    def node_data(self, ob):
        ret = dict()
        data = ret if self.simple_mode else ret.setdefault('__node__', dict())
        if not self.simple_mode or self.include_class:
            data['class'] = self.dotted_name(ob)
        data['name'] = ob.name
        self.call_serializers(ob, data)
        return ret

    def call_serializers(self, ob, data):
        for cls, callback in serializer.registry.items():
            if not issubclass(cls, Interface):
                if isinstance(ob, cls):
                    callback(self, ob, data)
            elif cls.providedBy(ob):
                callback(self, ob, data)

    def unused(self, ob):
        if ob:
            pass
""")
v(SE, """            return '<UUID>:{}'.format(ob)
""", """            return '<UUID>:' + str(ob)
""", """            return '<UUID>:%s' % ob
""", """            return ':'.join(['<UUID>', str(ob)])
""", """            return f'<UUID>:{ob}'
""")
v(SE, """        components = name.split('.')
        path = components[0]
        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        components = name.split('.')
        path = components.pop(0)
        ob = __import__(path)
        for comp in components:
            path += '.' + comp
            if not hasattr(ob, comp):
                __import__(path)
            ob = getattr(ob, comp)
        return ob
""", """        path, *rest = name.split('.')
        ob = __import__(path)
        for comp in rest:
            path = path + '.' + comp
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""")
v(SE, """        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        node = factory(**kw)
        if parent is None:
            node.__name__ = name
        else:
            parent[name] = node
        return node
""", """        node = self.make(factory, kw)
        if parent is not None:
            parent[name] = node
            return node
        node.__name__ = name
        return node

    def make(self, factory, kw):
        return factory(**kw)
""")
v(SE, """        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
        # return data as is if no dict
        if not isinstance(data, dict):
            return data
""", """        if isinstance(data, STR_TYPE):
            return self.decode_text(data)
        if isinstance(data, list):
            result = []
            for it in data:
                result.append(self.decode(it, parent=parent))
            return result
        if not isinstance(data, dict):
            return data
        return self.decode_dict(data, parent)

    def decode_text(self, data):
        if data == '<UNSET>':
            return UNSET
        if data[:7] == '<UUID>:':
            return uuid.UUID(data[7:])
        return data

    def decode_dict(self, data, parent=None):
""", """        if isinstance(data, STR_TYPE):
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[len('<UUID>:'):])
            return UNSET if data == '<UNSET>' else data
        if not isinstance(data, (list, dict)):
            return data
        if isinstance(data, list):
            return list(self.decode(it, parent=parent) for it in data)
""")
v(SE, """        return dict([
            (key, self.decode(value, parent=parent))
            for key, value in data.items()
        ])
""", """        return {
            key: self.decode(value, parent=parent)
            for key, value in data.items()
        }
""", """        ret = dict()
        for key in data:
            ret[key] = self.decode(data[key], parent)
        return ret
""")
v(SE, """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface):
                    if not cls.providedBy(node):
                        continue
                elif not isinstance(node, cls):
                    continue
                callback(self, node, node_data)
            return node
""")
v(SE, """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if children:
        data['children'] = children
""", """    for child in node.values():
        data.setdefault('children', []).append(encoder.default(child))
""", """    children = list(map(encoder.default, node.values()))
    if len(children) > 0:
        data['children'] = children
""", """    data['children'] = [encoder.default(node[key]) for key in node]
    if not data['children']:
        del data['children']
""")
v(SE, """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children', ()):
        decoder.decode(child, parent=node)
""", """    if 'children' not in data:
        return
    decoder.decode(data['children'], parent=node)
""", """    for child in data.get('children') or []:
        decoder.decode(child, node)
""")
v(SE, """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data['attrs'] = {
        name: encoder.default(value) for name, value in node.attrs.items()
    }
""", """    attrs = data['attrs'] = dict()
    for name in node.attrs:
        attrs[name] = encoder.default(node.attrs[name])
""", """    attrs = node.attrs
    data['attrs'] = dict((n, encoder.default(attrs[n])) for n in attrs.keys())
""")
v(SE, """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    attrs = node.attrs
    for attr, value in data.get('attrs', {}).items():
        attrs[attr] = decoder.decode(value)
""", """    if data.get('attrs'):
        for attr in data['attrs']:
            node.attrs[attr] = decoder.decode(data['attrs'][attr])
""", """    attrs = data.get('attrs')
    if attrs:
        node.attrs.update((k, decoder.decode(v)) for k, v in attrs.items())
""")
v(SE, """    def __call__(self, ob):
        self.registry[self.ob] = ob
        return ob
""", """    def __call__(self, callback):
        registry = self.registry
        registry[self.ob] = callback
        return callback
""", """    def __call__(self, ob):
        self.registry.update({self.ob: ob})
        return ob
""")

# -- behaviors/common.py ----------------------------------------------------

v(CO, """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            pass
        factory = self.factories[key]
        self[key] = child = factory()
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            return self._create_child(key)

    @default
    def _create_child(self, key):
        child = self.factories[key]()
        self[key] = child
        return child
""", """        child = missing = object()
        try:
            child = _next(self, key)
        except KeyError:
            pass
        if child is missing:
            child = self.factories[key]()
            self.__setitem__(key, child)
        return child
""", """        try:
            child = _next(self, key)
        except KeyError as e:
            if key not in self.factories:
                raise KeyError(key)
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            child = _next(self, key)
        except KeyError:
            factory = self.factories.get(key)
            if factory is None:
                raise
            child = factory()
            self[key] = child
        return child
""", """        try:
            child = _next(self, key)
        except KeyError:
            self[key] = self.factories[key]()
            child = _next(self, key)
        return child
""")
v(CO, """        return self.factories.__iter__()

    iterkeys = override(__iter__)
""", """        return iter(self.factories)

    iterkeys = override(__iter__)
""", """        for key in self.factories:
            yield key

    @override
    def iterkeys(self):
        return self.__iter__()
""", """        return iter(self.factories.keys())

    @override
    def iterkeys(self):
        return iter(self)
""")
v(CO, """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children = children = odict()
        for name, factory in self.fixed_children_factories:
            children[name] = child = factory()
            child.__parent__ = self
            child.__name__ = name
""", """        children = odict()
        for item in self.fixed_children_factories:
            child = item[1]()
            child.__name__ = item[0]
            child.__parent__ = self
            children[item[0]] = child
        self._children = children
""", """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            self._children[key] = self._create_fixed(key, factory)

    @default
    def _create_fixed(self, key, factory):
        child = factory()
        child.__name__ = key
        child.__parent__ = self
        return child
""", """        def create(key, factory):
            child = factory()
            child.__name__, child.__parent__ = key, self
            return child
        self._children = odict([
            (key, create(key, factory))
            for key, factory in self.fixed_children_factories
        ])
""")
v(CO, """    @finalize
    def __delitem__(self, key):
        raise NotImplementedError('read-only')

    @finalize
    def __getitem__(self, key):
        return self._children[key]

    @finalize
    def __iter__(self):
        return iter(self._children)

    @finalize
    def __setitem__(self, key, val):
        raise NotImplementedError('read-only')
""", """    @finalize
    def __getitem__(self, key):
        children = self._children
        return children[key]

    @finalize
    def __iter__(self):
        for key in self._children:
            yield key

    @finalize
    def __setitem__(self, key, val):
        msg = 'read-only'
        raise NotImplementedError(msg)

    @finalize
    def __delitem__(self, key):
        msg = 'read-only'
        raise NotImplementedError(msg)
""", """    @finalize
    def _read_only(self):
        raise NotImplementedError('read-only')

    @finalize
    def __delitem__(self, key):
        self._read_only()

    @finalize
    def __getitem__(self, key):
        return self._children[key]

    @finalize
    def __iter__(self):
        return self._children.__iter__()

    @finalize
    def __setitem__(self, key, val):
        self._read_only()
""")
v(CO, """        # only care about adopting if we have a node
        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        if INode.providedBy(val):
            old = (val.__name__, val.__parent__)
            val.__name__, val.__parent__ = key, self
            try:
                _next(self, key, val)
            except Exception:
                val.__name__, val.__parent__ = old
                raise
        else:
            _next(self, key, val)
""", """        adopt = INode.providedBy(val)
        if adopt:
            old_name = val.__name__
            old_parent = val.__parent__
            val.__name__ = key
            val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            if adopt:
                val.__name__ = old_name
                val.__parent__ = old_parent
            raise
""", """        if not INode.providedBy(val):
            _next(self, key, val)
            return
        old = dict(name=val.__name__, parent=val.__parent__)
        val.__parent__ = self
        val.__name__ = key
        done = False
        try:
            _next(self, key, val)
            done = True
        finally:
            if not done:
                val.__name__ = old['name']
                val.__parent__ = old['parent']
""", """        if not INode.providedBy(val):
            return _next(self, key, val)

        def locate(name, parent):
            val.__name__ = name
            val.__parent__ = parent
        old_name = val.__name__
        old_parent = val.__parent__
        locate(key, self)
        try:
            _next(self, key, val)
        except BaseException:
            locate(old_name, old_parent)
            raise
""", """        from contextlib import contextmanager

        @contextmanager
        def located(node, name, parent):
            old_name = node.__name__
            old_parent = node.__parent__
            node.__name__ = name
            node.__parent__ = parent
            try:
                yield
            except Exception:
                node.__name__ = old_name
                node.__parent__ = old_parent
                raise

        if not INode.providedBy(val):
            _next(self, key, val)
            return
        with located(val, key, self):
            _next(self, key, val)
""")
v(CO, """        # We reroute through __getitem__ and __setitem__, skipping _next
        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            value = self[key]
        except KeyError:
            value = default
            self[key] = value
        return value
""", """        try:
            return self.__getitem__(key)
        except KeyError:
            pass
        self.__setitem__(key, default)
        return default
""")
v(CO, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            if isinstance(val, type):
                raise ValueError('It isn\\'t allowed to use classes as values.')
            if not INode.providedBy(val):
                raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if self.allow_non_node_childs:
            _next(self, key, val)
            return
        if inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        elif not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        else:
            _next(self, key, val)
""", """        msg = None
        if not self.allow_non_node_childs:
            if inspect.isclass(val):
                msg = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                msg = 'Non-node childs are not allowed.'
        if msg is not None:
            raise ValueError(msg)
        return _next(self, key, val)
""")
v(CO, """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            child = self[name]
        except KeyError:
            raise AttributeError(name)
        else:
            return child
""", """        try:
            return self.__getitem__(name)
        except KeyError as e:
            raise AttributeError(name) from e
""")
v(CO, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied
""", """        node = _next(self)
        recursiv = self.overwrite_recursiv_on_copy
        self.set_uuid_for(node, override=True, recursiv=recursiv)
        return node
""")
v(CO, """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if IUUIDAware.providedBy(node) and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        for child in node.values():
            if not INode.providedBy(child):
                continue
            self.set_uuid_for(child, override=override, recursiv=True)
""", """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for key in node:
                child = node[key]
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        nodes = [node]
        while nodes:
            current = nodes.pop()
            if IUUIDAware.providedBy(current):
                if override or not current.uuid:
                    current.uuid = self.uuid_factory()
            if recursiv:
                nodes.extend(
                    child for child in current.values()
                    if INode.providedBy(child)
                )
""")
v(CO, """        _next(self, *args, **kw)
        self.uuid = self.uuid_factory()
""", """        _next(self, *args, **kw)
        factory = self.uuid_factory
        self.uuid = factory()
""")

# -- behaviors/mapping.py -----------------------------------------------------

MP = 'behaviors/mapping.py'
v(MP, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        try:
            value = self[key]
        except KeyError:
            value = default
        return value

    @default
    def __contains__""", """        return self[key] if key in self else default

    @default
    def __contains__""")
v(MP, """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        try:
            self.__getitem__(key)
            return True
        except KeyError:
            return False
""", """        found = True
        try:
            self[key]
        except KeyError:
            found = False
        return found
""")
v(MP, """        return [x for x in self]
""", """        return list(iter(self))
""", """        keys = []
        for key in self:
            keys.append(key)
        return keys
""", """        return [*iter(self)]
""")
v(MP, """        return [self[key] for key in self]
""", """        return list(map(self.__getitem__, self))
""", """        values = list()
        for key in self:
            values.append(self[key])
        return values
""", """        return [val for key, val in self.items()]
""")
v(MP, """        return [(key, self[key]) for key in self]
""", """        return list(zip(self.keys(), self.values()))
""", """        result = []
        for key in self:
            value = self[key]
            result.append((key, value))
        return result
""", """        return list((key, self[key]) for key in self)
""")
v(MP, """        return len(self.keys())
""", """        return sum(1 for key in self)
""", """        return len([key for key in self])
""", """        count = 0
        for key in self:
            count += 1
        return count
""")
v(MP, """        return self.__iter__()
""", """        return iter(self)
""", """        for key in self:
            yield key
""", """        yield from self
""")
v(MP, """        for key in self:
            yield self[key]
""", """        for key in self.__iter__():
            val = self[key]
            yield val
""", """        return (self[key] for key in self)
""", """        return iter([self[key] for key in self])
""")
v(MP, """        for key in self:
            yield key, self[key]
""", """        return ((key, self[key]) for key in self)
""", """        for key in self.iterkeys():
            yield (key, self[key])
""")
v(MP, """        for key in self.keys():
            del self[key]
""", """        for key in list(self):
            self.__delitem__(key)
""", """        keys = self.keys()
        while keys:
            del self[keys.pop(0)]
""", """        for key in [key for key in self]:
            del self[key]
""", """        for key in tuple(self.keys()):
            del self[key]
""")
v(MP, """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        if len(args) > 1:
            raise TypeError(
                'At most one positional argument, not: {}.'.format(len(args)))
        data = args[0] if args else []
        if hasattr(data, ITER_FUNC):
            data = iteritems(data)
        for key, val in data:
            self[key] = val
        for key in kw:
            self[key] = kw[key]
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        sources = list(args) + [kw]
        for data in sources:
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)

        def assign(pairs):
            for key, val in pairs:
                self[key] = val
        if args:
            data = args[0]
            assign(iteritems(data) if hasattr(data, ITER_FUNC) else data)
        assign(iteritems(kw))
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        for data in args:
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for item in data:
                key, val = item
                self.__setitem__(key, val)
        for key, val in kw.items():
            self[key] = val
""")
v(MP, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
""", """        try:
            val = self[key]
            del self[key]
        except KeyError as e:
            if default is UNSET:
                raise e
            return default
        return val
""")
v(MP, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        key = keys[-1]
        val = self[key]
        del self[key]
        return key, val
""", """        keys = self.keys()
        if len(keys) == 0:
            raise KeyError('popitem(): mapping is empty')
        key = keys.pop()
        val = self[key]
        del self[key]
        return (key, val)
""", """        for key in self.keys()[::-1]:
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        try:
            key = self.keys()[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        val = self[key]
        del self[key]
        return key, val
""")
v(MP, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default

    @default
    def pop""", """        try:
            val = self[key]
        except KeyError:
            self[key] = val = default
        return val

    @default
    def pop""", """        if key not in self:
            self[key] = default
            return default
        return self[key]

    @default
    def pop""")

# -- behaviors/storage.py --------------------------------------------------------

STO = 'behaviors/storage.py'
v(STO, """        return self.storage.__iter__()
""", """        return iter(self.storage)
""", """        for key in self.storage:
            yield key
""", """        return iter(self.storage.keys())
""")
v(STO, """        return self.storage[key]
""", """        return self.storage.__getitem__(key)
""", """        storage = self.storage
        return storage[key]
""")
v(STO, """        self.storage[key] = val
""", """        self.storage.__setitem__(key, val)
""", """        storage = self.storage
        storage[key] = val
""")
v(STO, """        del self.storage[key]
""", """        self.storage.__delitem__(key)
""", """        storage = self.storage
        del storage[key]
""")
v(STO, """        return dict()


@impl""", """        return {}


@impl""")

# -- behaviors/nodify.py ---------------------------------------------------------

NF = 'behaviors/nodify.py'
v(NF, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        names = []
        for node in LocationIterator(self):
            names.insert(0, node.name)
        return names
""", """        return [node.name for node in LocationIterator(self)][::-1]
""", """        return list(reversed([node.name for node in LocationIterator(self)]))
""", """        path = list()
        for node in LocationIterator(self):
            path.append(node.name)
        path.reverse()
        return path
""")
v(NF, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
""", """        for node in LocationIterator(self):
            root = node
        return root
""", """        node = self
        while node.__parent__ is not None:
            node = node.__parent__
        return node
""")
v(NF, """        node = self[key]
        del self[key]
        return node
""", """        child = self.__getitem__(key)
        self.__delitem__(key)
        return child
""", """        return self.pop(key)
""")
v(NF, """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        is_interface = IInterface.providedBy(interface)
        node = self.parent
        while node is not None:
            if is_interface and interface.providedBy(node):
                return node
            if isinstance(node, interface):
                return node
            node = node.parent
        return None
""", """        def matches(node):
            return (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                isinstance(node, interface)
        node = self.parent
        while node is not None:
            if matches(node):
                break
            node = node.parent
        else:
            return None
        return node
""", """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""")
v(NF, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val

    @override
    def filteredvalues(self, interface):
        return [val for val in self.filtereditervalues(interface)]
""", """        return (val for val in self.itervalues() if interface.providedBy(val))

    @override
    def filteredvalues(self, interface):
        return list(self.filtereditervalues(interface))
""", """        for val in self.values():
            if not interface.providedBy(val):
                continue
            yield val

    @override
    def filteredvalues(self, interface):
        return [val for val in self.values() if interface.providedBy(val)]
""", """        return filter(interface.providedBy, self.itervalues())

    @override
    def filteredvalues(self, interface):
        return list(filter(interface.providedBy, self.itervalues()))
""")
v(NF, """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        lines = ['{}{}\\n'.format(indent * prefix, self.noderepr)]
        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                lines.append(value.treerepr(indent + 2, prefix))
            else:
                lines.append('{}{}: {}\\n'.format(
                    (indent + 2) * prefix, key, repr(value)))
        return ''.join(lines)
""", """        def sort_key(item):
            return UNICODE_TYPE(item[0])
        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        if IOrdered.providedBy(self):
            keys = self.keys()
        else:
            keys = sorted(self.keys(), key=UNICODE_TYPE)
        deeper = indent + 2
        for key in keys:
            value = self[key]
            if INode.providedBy(value):
                res += value.treerepr(indent=deeper, prefix=prefix)
                continue
            res += '{}{}: {}\\n'.format(deeper * prefix, key, repr(value))
        return res
""", """        res = indent * prefix + self.noderepr + '\\n'
        items = list(self.items())
        if not IOrdered.providedBy(self):
            items.sort(key=lambda item: UNICODE_TYPE(item[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '%s%s: %r\\n' % ((indent + 2) * prefix, key, value)
        return res
""", """        res = '{}{}\\n'.format(prefix * indent, self.noderepr)
        return res + ''.join(self._child_repr(indent + 2, prefix))

    @override
    def _child_repr(self, indent, prefix):
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                yield value.treerepr(indent=indent, prefix=prefix)
            else:
                yield '{}{}: {}\\n'.format(indent * prefix, key, repr(value))
""")
v(NF, """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        copied = _next(self)
        copied.__name__, copied.__parent__ = self.__name__, self.__parent__
        return copied
""", """        new = _next(self)
        for name in ('__name__', '__parent__'):
            setattr(new, name, getattr(self, name))
        return new
""")

# -- behaviors/nodespace.py ---------------------------------------------------------

NSP = 'behaviors/nodespace.py'
v(NSP, """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is None:
            nodespaces = self._nodespaces = odict()
            nodespaces['__children__'] = self
        return nodespaces
""", """        if self._nodespaces is not None:
            return self._nodespaces
        self._nodespaces = odict([('__children__', self)])
        return self._nodespaces
""", """        if self._nodespaces is None:
            nodespaces = odict()
            nodespaces['__children__'] = self
            self._nodespaces = nodespaces
        return self._nodespaces
""")
v(NSP, """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
""", """        if not isinstance(key, STR_TYPE):
            return _next(self, key)
        if key.startswith('__') and key.endswith('__'):
            return self.nodespaces[key]
        return _next(self, key)
""", """        def reserved(key):
            return isinstance(key, STR_TYPE) and key[:2] == '__' and key[-2:] == '__'
        if reserved(key):
            return self.nodespaces[key]
        return _next(self, key)
""", """        reserved = isinstance(key, STR_TYPE) and \\
            key.startswith('__') and key.endswith('__')
        if reserved:
            return self.nodespaces[key]
        return _next(self, key)
""")
v(NSP, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """            val.__parent__ = self
            val.__name__ = key
            nodespaces = self.nodespaces
            nodespaces[key] = val
        else:
            _next(self, key, val)
""", """            val.__name__, val.__parent__ = key, self
            self.nodespaces.__setitem__(key, val)
            return
        return _next(self, key, val)
""")
v(NSP, """            del self.nodespaces[key]
            return
        _next(self, key)
""", """            self.nodespaces.__delitem__(key)
        else:
            _next(self, key)
""")

# -- behaviors/attributes.py -----------------------------------------------------------

AT = 'behaviors/attributes.py'
v(AT, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            nodespaces['__attrs__'] = self.attributes_factory(
                name='__attrs__', parent=self)
        attrs = nodespaces['__attrs__']
        if not self.attribute_access_for_attrs:
            return attrs
        return AttributeAccess(attrs)
""", """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.attributes_factory('__attrs__', self)
            self.nodespaces['__attrs__'] = attrs
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs
""", """        key = '__attrs__'
        attrs = self.nodespaces.get(key)
        if attrs is None:
            attrs = self.attributes_factory(name=key, parent=self)
            self.nodespaces[key] = attrs
        if self.attribute_access_for_attrs:
            attrs = AttributeAccess(attrs)
        return attrs
""")

# -- behaviors/order.py ------------------------------------------------------------------

OR = 'behaviors/order.py'
v(OR, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        keys = self.keys()
        if keys:
            self.insertbefore(newnode, self[keys[0]])
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""", """        for key in self:
            self.insertbefore(newnode, self[key])
            return
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""", """        values = self.values()
        if not values:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        self.insertbefore(newnode, values[0])
""")
v(OR, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        keys = list(self)
        if len(keys) > 0:
            last = keys[-1]
            self.insertafter(newnode, self[last])
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""", """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        self.insertafter(newnode, self[keys[len(keys) - 1]])
""")
v(OR, """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._insert(self.storage.insertbefore, newnode, refnode)

    @override
    def _insert(self, func, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            func(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._validateinsertion(newnode)
        if refnode.name not in self.storage:
            raise ValueError('Given reference node not child of self.')
        self.storage.insertbefore(refnode.name, newnode.name, newnode)
        self._setinserted(newnode)
""", """        self._insert('insertbefore', newnode, refnode)

    @override
    def _insert(self, name, newnode, refnode):
        self._validateinsertion(newnode)
        storage = self.storage
        try:
            getattr(storage, name)(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
v(OR, """        self.storage.swap(node_a.name, node_b.name)
""", """        name_a, name_b = node_a.name, node_b.name
        self.storage.swap(name_a, name_b)
""", """        storage = self.storage
        storage.swap(node_a.__name__, node_b.__name__)
""")
v(OR, """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        name = node.name
        if name is None:
            raise ValueError('Given node has no __name__ set.')
        if hasattr(self, 'node') and self.node(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        lookup = getattr(self, 'node', None)
        if lookup is not None:
            if lookup(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        if node.name in self.storage.keys():
            raise KeyError('Given node name already contained in node.')
""")

# -- utils.py -------------------------------------------------------------------------------

v(UT, """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    while True:
        if obj is None:
            return
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    while obj is not None:
        yield obj
        try:
            obj = obj.__parent__
        except AttributeError:
            obj = None
""", """    node = obj
    while node is not None:
        yield node
        node = getattr(node, '__parent__', None)
""")
v(UT, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        context = self.context
        for key in context:
            if context[key] == value:
                return key
        raise KeyError(value)
""", """        for key, val in self.context.items():
            if val == value:
                return key
        else:
            raise KeyError(value)
""", """        keys = [key for key in self.context if self.context[key] == value]
        if not keys:
            raise KeyError(value)
        return keys[0]
""")
v(UT, """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(self.context[key] == value for key in self.context)
""", """        for val in self.context.values():
            if val == value:
                return True
        return False
""", """        return value in [self.context[key] for key in self.context]
""")
v(UT, """        return [(v, k) for k, v in self.context.items()]
""", """        return [(self.context[key], key) for key in self.context]
""", """        items = []
        for key, val in self.context.items():
            items.append((val, key))
        return items
""", """        return list(zip(self.keys(), self.values()))
""")
v(UT, """        return [val for val in self]
""", """        return list(self)
""", """        return [self.context[key] for key in self.context]
""")
v(UT, """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__""", """        try:
            value = context[name]
        except KeyError:
            raise AttributeError(name)
        return value

    def __setattr__""")
v(UT, """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            pass
        value = func(self)
        setattr(self, attribute_name, value)
        return value
""", """        try:
            value = object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = func(self)
            setattr(self, attribute_name, value)
        return value
""", """        if attribute_name not in self.__dict__:
            setattr(self, attribute_name, func(self))
        return self.__dict__[attribute_name]
""")
v(UT, """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        path = [name for name in path.strip('/').split('/')] \\
            if path.strip('/') else []
    node = root
    for name in path:
        node = node[name]
    return node
""", """    names = path
    if isinstance(path, STR_TYPE):
        stripped = path.strip('/')
        names = stripped.split('/') if stripped else []
    for name in names:
        root = root[name]
    return root
""", """    from functools import reduce
    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    return reduce(lambda node, name: node[name], path, root)
""")
v(UT, """        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
""", """        result = func(*args, **kws)
        msg = u'{}: --> {}'.format(func_name(func), UNICODE_TYPE(result))
        logger.debug(msg)
        return result
""")
