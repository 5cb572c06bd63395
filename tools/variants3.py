"""Further refactorings keeping the behaviour, other styles: small helpers,
early returns, walrus, comprehensions, guard clauses, context managers."""
B = 'behaviors/'
REFACTORINGS3 = []


def r(rel, *edits):
    REFACTORINGS3.append((rel, tuple(zip(edits[::2], edits[1::2]))))


# -- events ------------------------------------------------------------------

r(B + 'events.py', """    events = cls.__events__
    for attr, val in dct.items():
        if isinstance(val, EventAttribute):
            if attr not in events:
                events.append(attr)
            val.name = attr
""", """    declared = [
        (attr, val) for attr, val in dct.items()
        if isinstance(val, EventAttribute)
    ]
    for attr, val in declared:
        val.name = attr
        if attr not in cls.__events__:
            cls.__events__.append(attr)
""")
r(B + 'events.py', """    if '__events__' not in cls.__dict__:
        # inherit events, but never share the list with the base class
        cls.__events__ = list(getattr(cls, '__events__', ()))
    events = cls.__events__
""", """    if '__events__' in cls.__dict__:
        events = cls.__events__
    else:
        inherited = getattr(cls, '__events__', ())
        events = cls.__events__ = list(inherited)
""")
r(B + 'events.py', """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
""", """        if type(events) is list or type(events) is tuple:
            self.events = events
        else:
            self.events = [events]
""")
r(B + 'events.py', """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        data = self.data
        data.events.extend(self.events)
        level = data.suppress + 1
        data.suppress = level
        return level
""")
r(B + 'events.py', """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        data = self.data
        for event in reversed(self.events):
            data.events.remove(event)
        data.suppress -= 1
""")
r(B + 'events.py', """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)

    def __delete__(self, obj):
        \"\"\"Delete attribute value.
        \"\"\"
        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
""", """        old_value = self.__get__(obj)
        getattr(obj, self.storage)[self.name] = value
        if not self.always_dispatch and not value != old_value:
            return
        self._notify(obj, value)

    def __delete__(self, obj):
        \"\"\"Delete attribute value.
        \"\"\"
        values = getattr(obj, self.storage)
        del values[self.name]
        self._notify(obj, UNSET)

    def _notify(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""")
r(B + 'events.py', """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if subscriber is None:
            if event is None:
                self.__subscribers__ = dict()
            else:
                self.__subscribers__.pop(event, None)
            return
        if event is None:
            affected = list(self.__subscribers__.values())
        else:
            affected = [self.__subscribers__.get(event, list())]
        for subscribers in affected:
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""")
r(B + 'events.py', """        for event, subscriber in kw.items():
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """        for event, subscriber in kw.items():
            known = event in self.__events__ or \\
                event in self.__class__.__events__
            if not known:
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = list()
            if subscriber in self.__subscribers__[event]:
                continue
            self.__subscribers__[event].append(subscriber)
""")
r(B + 'events.py', """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
""", """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        data = suppress_events.data
        suppressed = data.suppress > 0 and (
            ALL_EVENTS in data.events or event in data.events)
        if suppressed:
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
""")
r(B + 'events.py', """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        bound = tuple(self.__subscribers__.get(event, ()))
        for subscriber in bound:
            subscriber(*args, **kw)
""")
r(B + 'events.py', """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        if event not in self.__subscribers__:
            return
        for subscriber in self.__subscribers__[event][:]:
            subscriber(*args, **kw)
""")

# -- reference ---------------------------------------------------------------

r(B + 'reference.py', """        if INode.providedBy(val):
            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
""", """        if INode.providedBy(val):
            val_index = val._index
            for iuuid in val_index:
                if iuuid in self._index:
                    raise ValueError('Node with uuid already exists')
""")
r(B + 'reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            if any(iuuid in self._index for iuuid in val._index):
                raise ValueError('Node with uuid already exists')
""")
r(B + 'reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            if set(self._index) & set(val._index):
                raise ValueError('Node with uuid already exists')
""")
r(B + 'reference.py', """        if INode.providedBy(val):
            keys = set(self._index.keys())
""", """        if not INode.providedBy(val):
            _next(self, key, val)
        else:
            keys = set(self._index.keys())
""", """                val._index = val_index
                raise
            return
        _next(self, key, val)
""", """                val._index = val_index
                raise
""")
r(B + 'reference.py', """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
        try:
""", """        todel = self[key]
        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
        removed = {iuuid: self._index.pop(iuuid) for iuuid in iuuids}
        try:
""")
r(B + 'reference.py', """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index.pop(iuuid)
""")
r(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        index = self._index
        new, old = [
            None if it is None else int(it) for it in (uuid, self._uuid)
        ]
        if index.get(new, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        index.pop(old, None)
        index[new] = self
        self._uuid = uuid
""")
r(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
""", """        def number(value):
            return int(value) if value is not None else None

        iuuid = number(uuid)
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = number(self._uuid)
""")
r(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for child in self.values():
            try:
                todel.extend(child._to_delete())
            except AttributeError:
                pass
        return todel
""")
r(B + 'reference.py', """            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                pass
            else:
                node._index = self._index
                node._index[uuid] = node
                node._index_nodes()
""")

# -- lifecycle ---------------------------------------------------------------

r(B + 'lifecycle.py', """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _next(self, key, val)
        if not self._notify_suppress:
            event = self.events['added'](val, newParent=self, newName=key)
            objectEventNotify(event)
""")
r(B + 'lifecycle.py', """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        before, self._notify_suppress = self._notify_suppress, True
        try:
            node = _next(self, key)
        except BaseException:
            self._notify_suppress = before
            raise
        self._notify_suppress = before
        objectEventNotify""")
r(B + 'lifecycle.py', """@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """@contextmanager
def _quiet(node):
    before = node._notify_suppress
    node._notify_suppress = True
    try:
        yield
    finally:
        node._notify_suppress = before


@implementer(ILifecycle)
class Lifecycle(Behavior):
""", """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
""", """        with _quiet(self):
            node = _next(self, key)
""", """from node.events import NodeAddedEvent
""", """from contextlib import contextmanager
from node.events import NodeAddedEvent
""")
r(B + 'lifecycle.py', """@implementer(IAttributesLifecycle)
class AttributesLifecycle(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """def notify_modified(node):
    if not node._notify_suppress:
        factory = node.events['modified']
        objectEventNotify(factory(node))


@implementer(IAttributesLifecycle)
class AttributesLifecycle(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        _next(self, key, val)
        notify_modified(self.__parent__)

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        notify_modified(self.__parent__)
""")

# -- common ------------------------------------------------------------------

r(B + 'common.py', """        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        if not INode.providedBy(val):
            return _next(self, key, val)
        # save old __parent__ and __name__ to restore if something goes wrong
        location = dict(__name__=val.__name__, __parent__=val.__parent__)
        val.__name__, val.__parent__ = key, self
        try:
            _next(self, key, val)
        except Exception:
            for attr, value in location.items():
                setattr(val, attr, value)
            raise
""")
r(B + 'common.py', """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        with _located(val, key, self):
            _next(self, key, val)
""", """@implementer(IAdopt)
class Adopt""", """@contextmanager
def _located(node, name, parent):
    old_name = node.__name__
    old_parent = node.__parent__
    node.__name__ = name
    node.__parent__ = parent
    try:
        yield
    except Exception:
        node.__name__ = old_name
        node.__parent__ = old_parent
        raise


@implementer(IAdopt)
class Adopt""", """from node.utils import AttributeAccess
""", """from contextlib import contextmanager
from node.utils import AttributeAccess
""")
r(B + 'common.py', """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default


@implementer(IAsAttrAccess)""", """        try:
            value = self[key]
        except KeyError:
            value = self[key] = default
        return value


@implementer(IAsAttrAccess)""")
r(B + 'common.py', """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
        self[key] = child = factory()
        return child
""")
r(B + 'common.py', """        return self.factories.__iter__()
""", """        return iter(self.factories)
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            self._children[key] = self._create_child(key, factory)

    @default
    def _create_child(self, name, factory):
        child = factory()
        child.__name__ = name
        child.__parent__ = self
        return child
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = self._children = odict()
        for definition in self.fixed_children_factories:
            name = definition[0]
            child = children[name] = definition[1]()
            child.__parent__, child.__name__ = self, name
""")
r(B + 'common.py', """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            child = self[name]
        except KeyError as e:
            raise AttributeError(name) from e
        return child
""")
r(B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            msg = None
            if inspect.isclass(val):
                msg = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                msg = 'Non-node childs are not allowed.'
            if msg is not None:
                raise ValueError(msg)
        _next(self, key, val)
""")
r(B + 'common.py', """    @plumb
    def __delitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)

    @plumb
    def __setitem__(_next, self, key, val):
        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """    @plumb
    def __delitem__(_next, self, key):
        _next(self, _text(key))

    @plumb
    def __getitem__(_next, self, key):
        return _next(self, _text(key))

    @plumb
    def __setitem__(_next, self, key, val):
        return _next(self, *[_text(arg) for arg in (key, val)])
""", """@implementer(IUnicodeAware)
""", """def _text(value):
    return decode(value) if isinstance(value, bytes) else value


@implementer(IUnicodeAware)
""")
r(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if IUUIDAware.providedBy(node) and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        # non-Node values have no uuid and no children
        for child in filter(INode.providedBy, node.values()):
            self.set_uuid_for(child, override=override, recursiv=recursiv)
""")
r(B + 'common.py', """        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if recursiv:
            for key in node:
                child = node[key]
                # non-Node values have no uuid and no children
                if not INode.providedBy(child):
                    continue
                self.set_uuid_for(child, override, True)
""")

# -- mapping -----------------------------------------------------------------

r(B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = list(self.keys())
        if len(keys) == 0:
            raise KeyError('popitem(): mapping is empty')
        last = keys.pop()
        item = (last, self[last])
        del self[last]
        return item
""")
r(B + 'mapping.py', """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        has_default = default is not UNSET
        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if has_default:
                return default
            raise
""")
r(B + 'mapping.py', """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        given = len(args)
        if given > 1:
            raise TypeError(
                'At most one positional argument, not: %d.' % given)
        sources = list(args) + [kw]
        for data in sources:
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for item in data:
                self[item[0]] = item[1]
""")
r(B + 'mapping.py', """        for key in self.keys():
            del self[key]
""", """        doomed = tuple(self.keys())
        for key in doomed:
            self.__delitem__(key)
""")
r(B + 'mapping.py', """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        found = True
        try:
            self[key]
        except KeyError:
            found = False
        return found
""")
r(B + 'mapping.py', """        for key in self:
            yield key, self[key]
""", """        return ((key, self[key]) for key in self)
""")
r(B + 'mapping.py', """        for key in self:
            yield self[key]
""", """        for key, value in self.iteritems():
            yield value
""")
r(B + 'mapping.py', """        return [self[key] for key in self]
""", """        values = list()
        for key in iter(self):
            values.append(self[key])
        return values
""")
r(B + 'mapping.py', """        return len(self.keys())
""", """        return sum(1 for key in self)
""")

# -- cache -------------------------------------------------------------------

r(B + 'cache.py', """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        storage = self.storage
        if key is None:
            for stored_key in _keys(storage):
                del storage[stored_key]
            return
        if key not in self.keys():
            raise KeyError(key)
        # key is valid, but maybe not on storage right now
        if key in storage:
            del storage[key]
""")
r(B + 'cache.py', """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        if key is not None:
            if key not in _keys(self):
                raise KeyError(key)
            doomed = [key]
        else:
            doomed = _keys(self.storage)
        for name in doomed:
            self.storage.pop(name, None)
""")
r(B + 'cache.py', """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        if key is None:
            cache.clear()
        else:
            _evict(cache, key)
        _next(self, key=key)
""")
r(B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        child = _next(self, key)
        cache[key] = child
        return child
""")
r(B + 'cache.py', """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicted(self.cache, key):
            _next(self, key, value)
""", """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
""", """        with _evicted(self.cache, key):
            _next(self, key)
""", """@implementer(ICache)
""", """@contextmanager
def _evicted(cache, key):
    _evict(cache, key)
    try:
        yield
    finally:
        _evict(cache, key)


@implementer(ICache)
""", """from node.compat import IS_PY2
""", """from contextlib import contextmanager
from node.compat import IS_PY2
""")

# -- alias -------------------------------------------------------------------

r(B + 'alias.py', """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        whitelist = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            if aliaser is None:
                yield key
                continue
            try:
                alias = aliaser.alias(key)
            except KeyError:
                # an enumerable aliaser whitelists, we skip non-listed keys
                if not whitelist:
                    raise
            else:
                yield alias
""")
r(B + 'alias.py', """class Alias(Behavior):
    aliaser = default(None)

    @plumb
    def __getitem__(_next, self, key):
        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """class Alias(Behavior):
    aliaser = default(None)

    @default
    def _unalias(self, key):
        if self.aliaser is None:
            return key
        return self.aliaser.unalias(key)

    @plumb
    def __getitem__(_next, self, key):
        unaliased_key = self._unalias(key)
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""")
r(B + 'alias.py', """        return (self.prefix or '') + key
""", """        if not self.prefix:
            return key
        return self.prefix + key
""")
r(B + 'alias.py', """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix
        if not prefix:
            return prefixed_key
        if prefixed_key.startswith(prefix):
            return prefixed_key[len(prefix):]
        raise KeyError(u"key '{}' does not match prefix '{}'".format(
            prefixed_key,
            prefix
        ))
""")
r(B + 'alias.py', """        suffix = self.suffix or ''
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        suffix = self.suffix
        if not suffix:
            return suffixed_key
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:-len(suffix)]
""")
r(B + 'alias.py', """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key

    def unalias(self, key):
        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        return reduce(lambda k, aliaser: aliaser.alias(k), self.chain, key)

    def unalias(self, key):
        result = key
        for aliaser in self.chain[::-1]:
            result = aliaser.unalias(result)
        return result
""", """from node.utils import ReverseMapping
""", """from functools import reduce
from node.utils import ReverseMapping
""")
r(B + 'alias.py', """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e

    def unalias(self, aliased_key):
        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        return self._lookup(ReverseMapping(self), key)

    def unalias(self, aliased_key):
        return self._lookup(self, aliased_key)

    def _lookup(self, mapping, key):
        try:
            return mapping[key]
        except KeyError:
            if self.strict:
                raise
            return key
""")

# -- fallback ----------------------------------------------------------------

r(B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    fallback = _marker
    if getattr(parent, 'fallback_key', _marker) and node not in visited:
        visited.add(node)
        fallback = parent.get(parent.fallback_key, _marker)
    if fallback is not _marker:
        return _to_leaf(fallback, path, visited)
    return _to_root(parent, path, visited)
""")
r(B + 'fallback.py', """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    depth = len(node.path)
    for name in path[depth:]:
        child = node.get(name, _marker)
        if child is _marker:
            return _to_root(node, path=path, visited=visited)
        node = child
    return node
""")
r(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                path = list(self.path)
                path.append(key)
                value = _to_root(self, path, set())
            if value is _marker:
                raise
            return value""")
r(B + 'fallback.py', """class fallback_processing(object):
    data = _processing_data()

    def __enter__(self):
        self.data.processing += 1
        return self.data.processing

    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
""", """_data = _processing_data()


@contextmanager
def fallback_processing():
    _data.processing += 1
    try:
        yield _data.processing
    finally:
        _data.processing -= 1
""", """from node.interfaces import IFallback
""", """from contextlib import contextmanager
from node.interfaces import IFallback
""")
r(B + 'fallback.py', """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value""", """        try:
            return _next(self, key)
        except KeyError:
            value = self._search_fallback(key)
            if value is _marker:
                raise
            return value

    @default
    def _search_fallback(self, key):
        with fallback_processing() as count:
            if count > 0:
                return _marker
            return _to_root(self, path=self.path + [key], visited=set())""")

# -- nodespaces and attributes -----------------------------------------------

NS = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
"""
r(B + 'nodespace.py', NS + """            return self.nodespaces[key]
        return _next(self, key)
""", """        if not _reserved(key):
            return _next(self, key)
        return self.nodespaces[key]
""", NS + """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """        if not _reserved(key):
            _next(self, key, val)
            return
        val.__parent__ = self
        val.__name__ = key
        self.nodespaces[key] = val
""", NS + """            del self.nodespaces[key]
            return
        _next(self, key)
""", """        if _reserved(key):
            del self.nodespaces[key]
        else:
            _next(self, key)
""", """@implementer(INodespaces)
""", """def _reserved(key):
    return isinstance(key, STR_TYPE) and \\
        key[:2] == '__' and key[-2:] == '__'


@implementer(INodespaces)
""")
r(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is None:
            nodespaces = odict([('__children__', self)])
            self._nodespaces = nodespaces
        return nodespaces
""")
r(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            factory = self.attributes_factory
            nodespaces['__attrs__'] = factory(name='__attrs__', parent=self)
        attrs = nodespaces['__attrs__']
        return AttributeAccess(attrs) \\
            if self.attribute_access_for_attrs else attrs
""")
r(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            self.nodespaces['__attrs__'] = attrs
        if not self.attribute_access_for_attrs:
            return attrs
        return AttributeAccess(attrs)
""")

# -- order -------------------------------------------------------------------

r(B + 'order.py', """    @override
    def insertbefore(self, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)

    @override
    def insertafter(self, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """    @override
    def insertbefore(self, newnode, refnode):
        self._insert(self.storage.insertbefore, newnode, refnode)

    @override
    def insertafter(self, newnode, refnode):
        self._insert(self.storage.insertafter, newnode, refnode)

    @override
    def _insert(self, insert, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
r(B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        for key in self.keys():
            self.insertbefore(newnode, self[key])
            return
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""")
r(B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        keys = self.keys()
        if keys:
            self.insertbefore(newnode, self[keys[0]])
        else:
            self._insertonly(newnode)
""", """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        keys = self.keys()
        if keys:
            self.insertafter(newnode, self[keys[-1]])
        else:
            self._insertonly(newnode)

    @override
    def _insertonly(self, newnode):
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""")
r(B + 'order.py', """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        name = node.name
        if name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        lookup = getattr(self, 'node', None)
        if lookup is not None and lookup(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')
""")

# -- nodify ------------------------------------------------------------------

r(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = list()
        for parent in LocationIterator(self):
            path.insert(0, parent.name)
        return path
""")
r(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        return [node.name for node in reversed(list(LocationIterator(self)))]
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        *_, root = LocationIterator(self)
        return root
""")
r(B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        is_interface = IInterface.providedBy(interface)
        node = self.parent
        while node is not None:
            if is_interface and interface.providedBy(node):
                return node
            if isinstance(node, interface):
                return node
            node = node.parent
        return None
""")
r(B + 'nodify.py', """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        return (val for val in self.itervalues() if interface.providedBy(val))
""")
r(B + 'nodify.py', """        return [val for val in self.filtereditervalues(interface)]
""", """        return list(filter(interface.providedBy, self.values()))
""")
r(B + 'nodify.py', """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        lines = ['{}{}\\n'.format(indent * prefix, self.noderepr)]
        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=lambda item: UNICODE_TYPE(item[0]))
        nested = indent + 2
        for key, value in items:
            if INode.providedBy(value):
                lines.append(value.treerepr(indent=nested, prefix=prefix))
                continue
            lines.append('{}{}: {!r}\\n'.format(nested * prefix, key, value))
        return ''.join(lines)
""")
r(B + 'nodify.py', """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        new = _next(self)
        for attr in ('__name__', '__parent__'):
            setattr(new, attr, getattr(self, attr))
        return new
""")

# -- storage -----------------------------------------------------------------

r(B + 'storage.py', """        return self.storage[key]
""", """        storage = self.storage
        return storage.__getitem__(key)
""", """        del self.storage[key]
""", """        self.storage.__delitem__(key)
""", """        return self.storage.__iter__()
""", """        return iter(self.storage)
""")
r(B + 'storage.py', """        return dict()
""", """        return {}
""")

# -- locking -----------------------------------------------------------------

r('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = self._lock_of(node.root)

    @staticmethod
    def _lock_of(root):
        with _creation_lock:
            lock = getattr(root, '_treelock', None)
            if lock is None:
                lock = RLock()
                root._treelock = lock
            return lock
""")
r('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        root = node.root
        with _creation_lock:
            try:
                self.lock = root._treelock
            except AttributeError:
                self.lock = root._treelock = RLock()
""")
r('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""")
r('locking.py', """    def acquire(self):
        self.lock.acquire()

    __enter__ = acquire

    def release(self):
        self.lock.release()

    def __exit__(self, type, value, traceback):
        self.release()
""", """    def acquire(self):
        self.lock.acquire()

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.lock.release()
""")

# -- serializer --------------------------------------------------------------

r('serializer.py', """    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    if not simple_mode:
        return json.dumps(ob, cls=NodeEncoder)
    return json.dumps(
        ob,
        cls=NodeEncoder,
        simple_mode=True,
        include_class=include_class
    )
""")
r('serializer.py', """        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
        super(NodeEncoder, self).__init__(**kw)
""", """        for flag in ('simple_mode', 'include_class'):
            if flag in kw:
                setattr(self, flag, kw.pop(flag))
        super(NodeEncoder, self).__init__(**kw)
""")
r('serializer.py', """    def __init__(self, **kw):
        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
        super(NodeEncoder, self).__init__(**kw)
""", """    def __init__(self, simple_mode=False, include_class=True, **kw):
        self.simple_mode = simple_mode
        self.include_class = include_class
        super(NodeEncoder, self).__init__(**kw)
""")
r('serializer.py', """        # decode data from string
        if isinstance(data, STR_TYPE):
            # decode UNSET
            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """        # decode data from string
        if isinstance(data, STR_TYPE):
            return self._decode_string(data)
""", """    def decode(self, data, parent=None):
""", """    def _decode_string(self, data):
        if data == '<UNSET>':
            return UNSET
        prefix = '<UUID>:'
        if data.startswith(prefix):
            return uuid.UUID(data[len(prefix):])
        return data

    def decode(self, data, parent=None):
""")
r('serializer.py', """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface):
                    applies = cls.providedBy(node) or isinstance(node, cls)
                else:
                    applies = isinstance(node, cls)
                if applies:
                    callback(self, node, node_data)
            return node
""")
r('serializer.py', """        factory = self.resolve(data['class'])
        kw = self.decode(data.get('kw', dict()))
        name = data['name']
        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        name = data['name']
        factory = self.resolve(data['class'])
        node = factory(**self.decode(data.get('kw', dict())))
        if parent is None:
            node.__name__ = name
        else:
            parent[name] = node
        return node
""")
r('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(node[key]) for key in node]
    if len(children) > 0:
        data['children'] = children
""")
r('serializer.py', """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or ():
        decoder.decode(child, node)
""")
r('serializer.py', """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    if 'children' in data:
        for child in data['children']:
            decoder.decode(child, parent=node)
""")
r('serializer.py', """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    attrs = dict()
    for name in node.attrs:
        attrs[name] = encoder.default(node.attrs[name])
    data['attrs'] = attrs
""")
r('serializer.py', """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    data['attrs'] = {
        name: encoder.default(value) for name, value in node.attrs.items()
    }
""")
r('serializer.py', """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    attrs = data.get('attrs', {})
    target = node.attrs
    for name in attrs:
        target[name] = decoder.decode(attrs[name])
""")
r('serializer.py', """        if isclass(ob) or isfunction(ob):
            return '.'.join(
                [ob.__module__, ob.__name__ if IS_PY2 else ob.__qualname__]
            )
        elif ismethod(ob):
""", """        if isclass(ob) or isfunction(ob):
            name = ob.__name__ if IS_PY2 else ob.__qualname__
            return '{}.{}'.format(ob.__module__, name)
        if ismethod(ob):
""")
r('serializer.py', """        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        ob = __import__(path)
        for comp in components[1:]:
            path = path + '.' + comp
            if not hasattr(ob, comp):
                # module not imported yet
                __import__(path)
            ob = getattr(ob, comp)
        return ob
""")
r('serializer.py', """        self.registry[self.ob] = ob
        return ob
""", """        registry = self.registry
        registry.update([(self.ob, ob)])
        return ob
""")

# -- utils -------------------------------------------------------------------

r('utils.py', """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    current = obj
    while True:
        if current is None:
            return
        yield current
        current = getattr(current, '__parent__', None)
""")
r('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        for key, val in self.context.items():
            if val == value:
                return key
        raise KeyError(value)
""")
r('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        context = self.context
        matching = (key for key in context if context[key] == value)
        try:
            return next(matching)
        except StopIteration:
            raise KeyError(value)
""")
r('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(self.context[key] == value for key in self.context)
""")
r('utils.py', """        return [(v, k) for k, v in self.context.items()]
""", """        return list(zip(self.keys(), self.values()))
""")
r('utils.py', """        return [(v, k) for k, v in self.context.items()]
""", """        return [(self.context[key], key) for key in self.context]
""")
r('utils.py', """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        stripped = path.strip('/')
        path = stripped.split('/') if stripped else ()
    for name in path:
        root = root[name]
    return root
""")
r('utils.py', """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""")
r('utils.py', """    def wrapped(*args, **kws):
        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
    wrapped.__doc__ = func.__doc__
    return wrapped
""", """    @functools.wraps(func)
    def wrapped(*args, **kws):
        name = func_name(func)
        logger.debug(u'{}: args={}, kws={}'.format(
            name, UNICODE_TYPE(args), UNICODE_TYPE(kws)))
        result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(name, UNICODE_TYPE(result)))
        return result
    return wrapped
""", """import logging
""", """import functools
import logging
""")
r('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, bytes):
            try:
                return arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if self._soft:
                    return arg
                raise
        if isinstance(arg, (list, tuple)):
            cls = arg.__class__
            return cls([self.decode(item) for item in arg])
        if isinstance(arg, dict) or INode.providedBy(arg):
            return {
                self.decode(key): self.decode(value)
                for key, value in iteritems(arg)
            }
        return arg
""")

# -- other means: contextlib, itertools, functools, operator, walrus, while -----

r(B + 'cache.py', """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
""", """        with suppress(KeyError):
            del self.cache[key]
        try:
            _next(self, key, value)
""", """def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
""", """def _evict(cache, key):
    with suppress(KeyError):
        del cache[key]
""", """from node.compat import IS_PY2
""", """from contextlib import suppress
from node.compat import IS_PY2
""")
r(B + 'mapping.py', """        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        data = args[0] if args else ()
        if hasattr(data, ITER_FUNC):
            data = iteritems(data)
        for key, val in itertools.chain(data, iteritems(kw)):
            self[key] = val
""", """import copy
""", """import copy
import itertools
""")
r(B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        try:
            key = self.keys()[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        val = self[key]
        del self[key]
        return key, val
""")
r(B + 'mapping.py', """        for key in self.keys():
            del self[key]
""", """        keys = list(self.keys())
        while keys:
            del self[keys.pop(0)]
""")
r(B + 'mapping.py', """        return [(key, self[key]) for key in self]
""", """        return list(map(lambda key: (key, self[key]), self))
""")
r(B + 'mapping.py', """        return [x for x in self]
""", """        return [*self]
""")
r(B + 'mapping.py', """        for key in self:
            yield key, self[key]
""", """        yield from ((key, self[key]) for key in self)
""")
r(B + 'mapping.py', """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            value = self[key]
        except KeyError:
            pass
        else:
            return value
        self[key] = default
        return default
""")
r(B + 'nodify.py', """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        yield from filter(interface.providedBy, self.itervalues())
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        root = self
        while (parent := getattr(root, '__parent__', None)) is not None:
            root = parent
        return root
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return collections.deque(LocationIterator(self), maxlen=1).pop()
""", """from node.compat import IS_PY2
""", """import collections
from node.compat import IS_PY2
""")
r(B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        def matches(node):
            if IInterface.providedBy(interface) and \\
                    interface.providedBy(node):
                return True
            return isinstance(node, interface)

        node = self
        while True:
            node = node.parent
            if node is None or matches(node):
                return node
""")
r(B + 'nodify.py', """        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        def sortkey(item):
            return UNICODE_TYPE(item[0])

        items = list(self.items())
        if not IOrdered.providedBy(self):
            items.sort(key=sortkey)
        indent += 2
        for key, value in items:
            res += value.treerepr(indent, prefix) \\
                if INode.providedBy(value) \\
                else '{}{}: {}\\n'.format(indent * prefix, key, repr(value))
        return res
""")
r(B + 'events.py', """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        # subscribers may be bound or unbound by the subscribers called
        callbacks = [
            functools.partial(subscriber, self)
            for subscriber in attribute_subscribers
        ]
        for callback in callbacks:
            callback(*args, **kw)
        for callback in list(self.__subscribers__.get(event, [])):
            callback(*args, **kw)
""", """import threading
""", """import functools
import threading
""")
r(B + 'events.py', """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
""", """            self._check_event(event)
""", """    @finalize
    def bind(self, **kw):
""", """    @finalize
    def _check_event(self, event):
        for events in (self.__events__, self.__class__.__events__):
            if event in events:
                return
        raise UnknownEvent(event)

    @finalize
    def bind(self, **kw):
""")
r(B + 'events.py', """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            known = set(self.__events__) | set(self.__class__.__events__)
            if event not in known:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber in subscribers:
                continue
            subscribers += [subscriber]
""")
r(B + 'reference.py', """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """            iuuids = todel._to_delete()
            while iuuids:
                iuuid = iuuids.pop(0)
                removed[iuuid] = self._index.pop(iuuid)
""")
r(B + 'reference.py', """        return NodeIndex(self._index)
""", """        index = self._index
        return NodeIndex(index=index)
""")
r(B + 'reference.py', """        return self._index.get(int(uuid))
""", """        return self.index.get(uuid)
""")
r(B + 'reference.py', """    def get(self, key, default=None):
        return self._index.get(int(key), default)

    def __contains__(self, key):
        return int(key) in self._index
""", """    def get(self, key, default=None):
        return self[key] if key in self else default

    def __contains__(self, key):
        return self._index.get(int(key)) is not None
""")
r(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = []
        for childkey in self:
            try:
                nested = self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                nested = []
            todel += nested
        return [int(self.uuid)] + todel
""")
r(B + 'alias.py', """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
""", """        result = key
        aliasers = iter(self.chain)
        while True:
            try:
                aliaser = next(aliasers)
            except StopIteration:
                return result
            result = aliaser.alias(result)
""")
r(B + 'alias.py', """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix or ''
        length = len(prefix)
        if prefixed_key[:length] != prefix:
            msg = f"key '{prefixed_key}' does not match prefix '{prefix}'"
            raise KeyError(msg)
        return prefixed_key[length:]
""")
r(B + 'fallback.py', """    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    if parent is None:
        return _marker
    if getattr(parent, 'fallback_key', _marker) and node not in visited:
        visited |= {node}
        try:
            fallback = parent[parent.fallback_key]
        except KeyError:
            pass
        else:
            return _to_leaf(fallback, path=path, visited=visited)
    return _to_root(parent, path=path, visited=visited)
""")
r(B + 'common.py', """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        def create(key, factory):
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            return key, child

        self._children.update(itertools.starmap(
            create, self.fixed_children_factories))
""", """import inspect
""", """import inspect
import itertools
""")
r(B + 'common.py', """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        factories = self.fixed_children_factories
        for i in range(len(factories)):
            key, factory = factories[i]
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""")
r('serializer.py', """    for child in node.values():
        children.append(encoder.default(child))
""", """    children.extend(map(encoder.default, node.values()))
""")
r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            callbacks = [
                callback for cls, callback in serializer.registry.items()
                if issubclass(cls, Interface) and cls.providedBy(ob) or
                isinstance(ob, cls)
            ]
            for callback in callbacks:
                callback(self, ob, data)
            return ret
""")
r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            self._run(serializer, ob, data)
            return ret
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for callback in deserializer.applicable(node):
                callback(self, node, node_data)
            return node
""", """    def dotted_name(self, ob):
""", """    def _run(self, kind, ob, data):
        for callback in kind.applicable(ob):
            callback(self, ob, data)

    def dotted_name(self, ob):
""", """    def __init__(self, ob):
        self.ob = ob
""", """    @classmethod
    def applicable(cls, ob):
        for type_, callback in cls.registry.items():
            if issubclass(type_, Interface) and type_.providedBy(ob):
                yield callback
            elif isinstance(ob, type_):
                yield callback

    def __init__(self, ob):
        self.ob = ob
""")
r('serializer.py', """        # Serialize class, method or function
        if isclass(ob) or ismethod(ob) or isfunction(ob):
            if self.simple_mode:
                return self.dotted_name(ob)
            return {'__ob__': self.dotted_name(ob)}
        # no custom serialization required
        return ob
""", """        # no custom serialization required
        if not any(check(ob) for check in (isclass, ismethod, isfunction)):
            return ob
        # Serialize class, method or function
        name = self.dotted_name(ob)
        return name if self.simple_mode else dict(__ob__=name)
""")
r('serializer.py', """        # decode data from dict
        return dict([
            (key, self.decode(value, parent=parent))
            for key, value in data.items()
        ])
""", """        # decode data from dict
        decode = functools.partial(self.decode, parent=parent)
        return dict(zip(data.keys(), map(decode, data.values())))
""", """import json
""", """import functools
import json
""")
r('utils.py', """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            pass
        setattr(self, attribute_name, func(self))
        return object.__getattribute__(self, attribute_name)
""")
r('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        key = next((k for k, v in self.context.items() if v == value), UNSET)
        if key is UNSET:
            raise KeyError(value)
        return key
""")
r('utils.py', """        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __getitem__(self, name):
        context = object.__getattribute__(self, 'context')
        return context[name]

    def __setitem__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __delitem__(self, name):
        context = object.__getattribute__(self, 'context')
        del context[name]
""", """        self[name] = value

    def __getitem__(self, name):
        return _context(self)[name]

    def __setitem__(self, name, value):
        _context(self)[name] = value

    def __delitem__(self, name):
        del _context(self)[name]


def _context(access):
    return object.__getattribute__(access, 'context')
""")
r('locking.py', """    def _locktree_decorator(self, *args, **kwargs):
        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
    return _locktree_decorator""", """    @functools.wraps(fn)
    def _locktree_decorator(node, *args, **kwargs):
        with contextlib.ExitStack() as stack:
            stack.enter_context(TreeLock(node))
            return fn(node, *args, **kwargs)
    return _locktree_decorator""", """from threading import RLock
""", """from threading import RLock
import contextlib
import functools
""")
r('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        except BaseException:
            lock.release()
            raise
        else:
            lock.release()
            return result
""")
