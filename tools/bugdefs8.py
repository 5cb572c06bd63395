"""Eighth batch: commits as they might be made, with a flaw."""
INTERFACES = 'interfaces.py'
NEVENTS = 'events.py'
COMPAT = 'compat.py'

# optimisations
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True""", """        return key in self.keys()""")
b('C08', MAPPING, """        return len(self.keys())""", """        try:
            return len(self.storage)
        except AttributeError:
            return len(self.keys())""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        key = max(keys)
        val = self[key]
        del self[key]
        return key, val""")
b('C09', MAPPING, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val""", """        val = self.get(key, default)
        if val is default:
            if default is UNSET:
                raise KeyError(key)
            return val
        del self[key]
        return val""")
b('C09', MAPPING, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val""", """        if key not in self.keys():
            if default is UNSET:
                raise KeyError(key)
            return default
        val = self[key]
        del self[key]
        return val""")
b('C10', NODIFY, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root""", """        root = self
        while root.parent is not None and root.parent.name is not None:
            root = root.parent
        return root""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path""", """        parent = self.__parent__
        if parent is None or parent is self.root:
            return [node.name for node in (parent, self) if node is not None]
        return parent.path + [self.name]""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path""", """        if self.__parent__ is None:
            return [self.name] if self.name else []
        return self.__parent__.path + [self.name]""")
b('C10', NODIFY, """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent""", """        check = interface.providedBy if IInterface.providedBy(interface) \\
            else lambda node: type(node) is interface
        node = self.parent
        while node is not None:
            if check(node):
                return node
            node = node.parent""")
b('C10', UTILS, """    node = root
    for name in path:
        node = node[name]
    return node""", """    node = root
    for name in path:
        node = node.get(name)
        if node is None:
            raise KeyError('/'.join(path))
    return node""")
b('C11', COMMON, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied""", """        uuids = self.overwrite_recursiv_on_copy
        copied = _next(self)
        copied.set_uuid_for(self, True, uuids)
        return copied""")
b('C11', NODIFY, """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new""", """        new = _next(self)
        new.__name__ = self.__name__
        if self.__parent__ is not None and self.__name__ in self.__parent__:
            new.__parent__ = self.__parent__
        return new""")
b('C14', CACHE, """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:""", """        cache = self.cache
        if key is not None:
            if key not in cache:
                return
            del cache[key]
        else:""")
b('C14', CACHE, """        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)""", """        _next(self, key, value)
        if self.cache.get(key, value) is not value:
            _evict(self.cache, key)""")
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        value = cache.get(key)
        if value is None:
            value = _next(self, key)
            if value is not None:
                cache[key] = value
        return value""")
b('C15', CACHE, """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]""", """        keys = _keys(self) if key is None else [key]
        for key in keys:
            self.pop(key)""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]""", """            for key in _keys(storage):
                if INode.providedBy(storage[key]):
                    del storage[key]""", "from node.interfaces import ICache\n",
  "from node.interfaces import ICache\nfrom node.interfaces import INode\n")
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)""", """        try:
            return _next(self, unaliased_key)
        except KeyError as e:
            if e.args[0] != unaliased_key:
                raise
            raise KeyError(key)""")
b('C16', ALIAS, """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise""", """        if IEnumerableMapping.providedBy(self.aliaser):
            # an enumerable aliaser whitelists
            keys = set(_next(self))
            for alias, key in self.aliaser.items():
                if key in keys:
                    yield alias
            return
        for key in _next(self):
            yield key if self.aliaser is None else self.aliaser.alias(key)""")
b('C17', ALIAS, """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e""", """        for alias, aliased in self.items():
            if key in (alias, aliased):
                return alias
        if not self.strict:
            return key
        raise KeyError(key)""")
b('C18', UTILS, """            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([(k, self.decode(v)) for k, v in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""")
b('C18', UTILS, """            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise""", """            arg = arg.decode(
                self._encoding, 'ignore' if self._soft else 'strict')""")
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))""", """        delnode = self[key]
        event = self.events['removed'](delnode, oldParent=self, oldName=key)
        try:
            _next(self, key)
        finally:
            if not self._notify_suppress:
                objectEventNotify(event)""")
b('C20', LIFECYCLE, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        self._notify_suppress = True
        try:
            node = _next(self, key)
        except Exception:
            self._notify_suppress = False
            raise
        self._notify_suppress = False
        objectEventNotify""")
b('C20', NEVENTS, """class NodeDetachedEvent(ObjectRemovedEvent):
    pass""", """class NodeDetachedEvent(ObjectRemovedEvent):

    def __init__(self, object, oldParent=None, oldName=None):
        super(NodeDetachedEvent, self).__init__(object, None, oldName)""")
b('C20', NEVENTS, """class NodeAddedEvent(ObjectAddedEvent):
    pass""", """class NodeAddedEvent(ObjectAddedEvent):

    def __init__(self, object, newParent=None, newName=None):
        super(NodeAddedEvent, self).__init__(object)""")
b('C22', EVENTS, """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)""", """            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
            subscribers.append(subscriber)""")
b('C22', EVENTS, """        inst = super(type, cls).__new__(cls)
        inst.__events__ = list()
        inst.__subscribers__ = dict()
        return inst""", """        inst = super(type, cls).__new__(cls)
        inst.__events__ = cls.__events__
        inst.__subscribers__ = dict()
        return inst""")
b('C22', EVENTS, """    if '__events__' not in cls.__dict__:
        # inherit events, but never share the list with the base class
        cls.__events__ = list(getattr(cls, '__events__', ()))
    events = cls.__events__""", """    if '__events__' not in cls.__dict__:
        cls.__events__ = list()
        for base in bases:
            cls.__events__ += base.__dict__.get('__events__', ())
    events = cls.__events__""")
b('C22', EVENTS, """        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]""", """        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
            if event in self.__events__:
                self.__events__.remove(event)""")
b('C23', EVENTS, """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always""", """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, value)
        storage[self.name] = value
        if self.always""")
b('C23', EVENTS, """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)""", """        old_value = getattr(obj, self.storage).pop(self.name)
        if self.always_dispatch or old_value != self.default:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, UNSET)""")
b('C23', EVENTS, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events""", """        attribute_subscribers = _attribute_subscribers.subscribers
        if suppress_events""", """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
""", """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        _attribute_subscribers.subscribers = list()
""")
b('C24', EVENTS, """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events""", """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = set(events)""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)""", """        if type_ is not None and not issubclass(type_, Exception):
            return
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)""")
b('C25', EVENTS, """_attribute_subscribers = _subscribers_data()
""", """_attribute_subscribers = _subscribers_data()
_attribute_subscribers.default = list()
""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = _attribute_subscribers.default""")
b('C26', FALLBACK, """            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise""", """            with fallback_processing() as count:
                if count > 1:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise""")
b('C26', FALLBACK, """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current""", """    current = node
    for name in path[len(current.path):]:
        if name not in current.keys():
            return _to_root(current, path=path, visited=visited)
        current = current[name]
    return current""")
b('C26', FALLBACK, """    def __exit__(self, type, value, traceback):
        self.data.processing -= 1""", """    def __exit__(self, type, value, traceback):
        self.data.processing = -1 if type is None else \\
            self.data.processing - 1""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            TreeLock(self).release()
        return result""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        lock = TreeLock(self)
        try:
            lock.acquire()
            result = fn(self, *args, **kwargs)
            return result
        except Exception:
            raise
        else:
            lock.release()
        finally:
            if lock.lock._is_owned():
                lock.lock._release_save()""")
b('C28', SERIALIZER, """        if '__ob__' in data:
            return self.resolve(data['__ob__'])""", """        if '__ob__' in data:
            ob = self.resolve(data['__ob__'])
            return ob if isclass(ob) else ob()""")
b('C28', SERIALIZER, """            elif ismethod(ob):
                if IS_PY2:""", """            elif ismethod(ob):
                if IS_PY2:""") if False else None
b('C29', SERIALIZER, """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children""", """    data['children'] = [
        encoder.default(child) for name, child in sorted(node.items())]""")
b('C29', SERIALIZER, """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface):
                    if cls.providedBy(node):
                        callback(self, node, node_data)
                        break
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node""")
b('C29', SERIALIZER, """            node = factory(**kw)
            node.__name__ = name""", """            node = factory(**kw)
            node.__name__ = name or data['class']""")
b('C30', COMMON, """        for key, factory in self.fixed_children_factories:
            child = factory()""", """        for key, factory in sorted(self.fixed_children_factories):
            child = factory()""")
b('C30', COMMON, """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child""", """        if key in self.factories and key not in self.__dict__.setdefault(
                '_created', set()):
            self._created.add(key)
            self[key] = self.factories[key]()
        return _next(self, key)""")
b('C31', UTILS, """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)""", """        context = object.__getattribute__(self, 'context')
        if name not in context:
            raise AttributeError(name)
        return context[name]""")
b('C32', UTILS, """        try:
            return self[value]
        except KeyError:
            return default""", """        return dict(self.items()).get(value, default)""")
b('C34', NODIFY, """        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))""",
  """        items = dict((UNICODE_TYPE(k), v) for k, v in self.items())
        items = list(items.items()) \\
            if IOrdered.providedBy(self) \\
            else sorted(items.items(), key=lambda x: x[0])""")
b('C34', NODIFY, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val""", """        for val in self.itervalues():
            if interface.implementedBy(type(val)):
                yield val""")
b('C35', UTILS, """        f_result = func(*args, **kws)
        logger.debug""", """        f_result = func(*args, **kws)
        if hasattr(f_result, '__next__'):
            f_result = list(f_result)
        logger.debug""")
b('C35', UTILS, """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""", """        if attribute_name not in self.__dict__ \\
                and not hasattr(type(self), attribute_name):
            setattr(self, attribute_name, func(self))
        return object.__getattribute__(self, attribute_name)""")
b('C13', ATTRS, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs""", """        if self.attribute_access_for_attrs:
            if not isinstance(attrs, AttributeAccess):
                attrs = self.nodespaces['__attrs__'] = AttributeAccess(attrs)
            return attrs
        return attrs""")
b('C12', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val""", """            val.__name__ = key
            val.__parent__ = self
            if key == '__children__':
                self.clear()
                self.update(val)
                return
            self.nodespaces[key] = val""")
b('C12', NODESPACE, """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces""", """        if not self._nodespaces:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces""")
b('C07', STORAGE, """    @default
    @instance_property
    def storage(self):
        return dict()""", """    @default
    @property
    def storage(self):
        return self.__dict__.setdefault('_children', dict())""",)
b('C06', ORDER, """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore""", """        keys = sorted(self.keys())
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore""")
b('C06', ORDER, """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)""", """        self._validateinsertion(newnode)
        if refnode.name not in self.storage:
            raise ValueError('Given reference node not child of self.')
        self[newnode.name] = newnode
        del self.storage[newnode.name]
        self.storage.insertafter(refnode.name, newnode.name, newnode)""")
b('C05', REFERENCE, """    def node(self, uuid):
        return self._index.get(int(uuid))""", """    def node(self, uuid):
        node = self._index.get(int(uuid))
        if node is not None and node.root is not self.root:
            return None
        return node""")
b('C05', REFERENCE, """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()""", """        todel = [int(self.uuid)]
        for childkey in getattr(self, 'storage', self):
            try:
                todel += self.storage[childkey]._to_delete()""")
b('C04', REFERENCE, """            val_index = val._index
            self._index.update(val._index)""", """            val_index = dict(val._index)
            self._index.update(val._index)""")
b('C04', REFERENCE, """            except Exception:
                for iuuid, node in val_index.items():""", """            except (KeyError, ValueError):
                for iuuid, node in val_index.items():""")
b('C41', NODIFY, """    @default
    def __nonzero__(self):
        return True""", """    @default
    def __nonzero__(self):
        return self.__parent__ is not self""")
b('C33', INTERFACES, """class IOrder(""", """class IOrder(""") if False else None
