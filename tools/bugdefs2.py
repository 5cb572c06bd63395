# second batch of hand-written bugs, see bugs.py
# -- C01 ---------------------------------------------------------------------
b('C01', COMMON, """        # only care about adopting if we have a node
        if not INode.providedBy(val):
            _next(self, key, val)
            return
""", """        # only care about adopting if we have a node
        if not INode.providedBy(val):
            if hasattr(val, '__parent__'):
                val.__parent__ = self
            _next(self, key, val)
            return
""")
b('C01', COMMON, """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
        if old_parent is not None and old_parent is not self:
            # moved, nodes keep their name
            val.__name__ = old_name
""")
b('C01', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
""", """            if val.__parent__ is None:
                val.__name__ = key
                val.__parent__ = self
            self.nodespaces[key] = val
""")
b('C01', ATTRS, """                self.attributes_factory(name='__attrs__', parent=self)
""", """                self.attributes_factory(parent=self)
""")
b('C01', COMMON, """            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """            child = factory()
            if child.__name__ is None:
                child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""")
# -- C02 ---------------------------------------------------------------------
b('C02', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        old_path = val.path
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_path[-1] if old_parent is not None else None
            val.__parent__ = old_parent
            raise
""")
b('C02', COMMON, """            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """            val.__name__ = old_name
            val.__parent__ = old_parent
            if key in self:
                return
            raise
""")
b('C02', COMMON, """            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """            if self.get(key) is not val:
                val.__name__ = old_name
                val.__parent__ = old_parent
            raise
""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        except Exception as e:
            val.__name__ = old_name
            val.__parent__ = old_parent
            if isinstance(e, KeyError):
                raise KeyError(key)
            raise
""")
# -- C03 ---------------------------------------------------------------------
b('C03', COMMON, """class Adopt(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
""", """class Adopt(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        if val is None:
            val = self.get(key)
""")
# -- C04 ---------------------------------------------------------------------
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:""", """            for node in list(val._index.values()):
                if node.parent is not None:
                    node._index = self._index
            val._index = self._index
            try:""")
b('C04', REFERENCE, """            self._index.update(val._index)
            # nodes""", """            for iuuid, node in val._index.items():
                self._index.setdefault(iuuid, node)
                if node is not val and len(node) == 0:
                    break
            # nodes""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
""", """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                val._index = val_index
                raise
""")
b('C04', REFERENCE, """            except Exception:
                for iuuid, node in val_index.items():
""", """            except (KeyError, ValueError):
                for iuuid, node in val_index.items():
""")
b('C04', REFERENCE, """    def node(self, uuid):
        return self._index.get(int(uuid))
""", """    def node(self, uuid):
        if uuid == self.uuid:
            return self
        node = self._index.get(int(uuid))
        # do not hand out nodes from other branches
        if node is not None and node.root is self.root:
            return node
""")
b('C04', REFERENCE, """            self._index.update(val._index)
            # nodes""", """            index = dict(self._index)
            index.update(val._index)
            self._index = index
            # nodes""")
# -- C05 ---------------------------------------------------------------------
b('C05', REFERENCE, """            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
""", """            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                return todel
""")
b('C05', REFERENCE, """        except Exception:
            self._index.update(removed)
            raise
""", """        except KeyError:
            self._index.update(removed)
            raise
""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index and self.parent is not None:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""")
b('C05', REFERENCE, """        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError""", """        if iuuid in self._index \\
                and self._index[iuuid] is not self \\
                and self._index[iuuid].parent is self.parent:
            raise ValueError""")
b('C05', REFERENCE, """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """            for iuuid in todel._to_delete():
                if iuuid in self._index:
                    removed[iuuid] = self._index[iuuid]
        for iuuid in list(removed)[:1]:
            del self._index[iuuid]
""")
# -- C06 ---------------------------------------------------------------------
b('C06', ORDER, """        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
""", """        # inserting a key twice would break the linked list of the storage
        if self.storage.get(node.name):
""")
b('C06', ORDER, """        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertbefore(newnode, refnode)
        self.swap(newnode, refnode)
""")
b('C06', ORDER, """        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""", """        self._setinserted(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
""")
# -- C07 ---------------------------------------------------------------------
b('C07', STORAGE, """class DictStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return dict()
""", """class DictStorage(Storage):

    @default
    @property
    def storage(self):
        storage = self.__dict__.get('_storage')
        if not storage:
            storage = self.__dict__['_storage'] = dict()
        return storage
""")
b('C07', STORAGE, """    def __getitem__(self, key):
        return self.storage[key]
""", """    def __getitem__(self, key):
        try:
            return self.storage[key]
        except TypeError:
            # unhashable
            raise KeyError(key)
        except KeyError:
            return self.storage[str(key)]
""")
b('C07', UTILS, """            setattr(self, attribute_name, func(self))
            return object""", """            type.__setattr__(type(self), attribute_name, func(self)) \\
                if attribute_name == '_storage' else \\
                setattr(self, attribute_name, func(self))
            return object""")
# -- C08 ---------------------------------------------------------------------
b('C08', MAPPING, """        try:
            return self[key]
        except KeyError:
            return default

""", """        try:
            return self[key]
        except (KeyError, AttributeError):
            return default

""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        for other in self:
            if other == key:
                return True
        return False
""")
b('C08', MAPPING, """            yield key, self[key]
""", """            yield key, self.get(key)
""")
# -- C09 ---------------------------------------------------------------------
b('C09', MAPPING, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        val = self.get(key, default)
        if val is UNSET:
            raise KeyError(key)
        if key in self:
            del self[key]
        return val
""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                if key not in kw:
                    self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]
""", """        for key in self:
            del self[key]
""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        for key in self.keys():
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""")
b('C09', MAPPING, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        value = self.get(key)
        if value is None:
            self[key] = value = default
        return value
""")
# -- C10 ---------------------------------------------------------------------
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        parent = self.parent
        if parent is not None and hasattr(parent, 'path'):
            path = parent.path
            path.append(self.name)
            return list(dict.fromkeys(path))
        return [self.name]
""")
b('C10', NODIFY, """                    isinstance(node, interface):
                return node
            node = node.parent
""", """                    isinstance(node, interface):
                return node
            if node.parent is node.root:
                break
            node = node.parent
""")
b('C10', UTILS, """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    name = path.pop(0)
    return node_by_path(root[name], path)
""")
b('C10', UTILS, """    node = root
    for name in path:
        node = node[name]
    return node
""", """    node = root
    for name in path:
        if name == '..':
            node = node.parent
            continue
        node = node[name]
    return node
""")
# -- C11 ---------------------------------------------------------------------
b('C11', NODIFY, """        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        if new.__name__ is None:
            new.__name__ = self.__name__
            new.__parent__ = self.__parent__
        return new
""")
b('C11', MAPPING, """        return copy.copy(self)
""", """        new = copy.copy(self)
        return new if len(self) else self
""")
# -- C12 ---------------------------------------------------------------------
b('C12', NODESPACE, """            del self.nodespaces[key]
            return
        _next(self, key)
""", """            if key in self.nodespaces:
                del self.nodespaces[key]
                return
        _next(self, key)
""")
b('C12', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
""", """            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            if val.__parent__ is not self:
                val.__parent__ = self
            return
        _next(self, key, val)
""")
b('C12', NODESPACE, """    def __delitem__(_next, self, key):
        # blend in our nodespaces as children, with name __<name>__
        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
""", """    def __delitem__(_next, self, key):
        # blend in our nodespaces as children, with name __<name>__
        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__') and len(key) > 4:
""")
b('C12', NODESPACE, """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        if self._nodespaces is None:
            self._nodespaces = odict()
        self._nodespaces.setdefault('__children__', self)
        return self._nodespaces
""")
# -- C13 ---------------------------------------------------------------------
b('C13', ATTRS, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            if self.attribute_access_for_attrs:
                attrs = AttributeAccess(attrs)
            self.nodespaces['__attrs__'] = attrs
        return attrs
""")
b('C13', ATTRS, """    allow_non_node_childs = True
""", """    @property
    def allow_non_node_childs(self):
        return self.parent is None or \\
            getattr(self.parent, 'allow_non_node_childs', True) is not None \\
            and self.name == '__attrs__'
""")
b('C13', ATTRS, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        if self.attribute_access_for_attrs:
            return AttributeAccess(dict(attrs.items()))
        return attrs
""")
# -- C14 ---------------------------------------------------------------------
b('C14', CACHE, """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            value = _next(self, key)
        return cache.setdefault(value.name if hasattr(value, 'name')
                                else key, value)
""")
b('C14', CACHE, """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """            for cached_key in _keys(cache):
                if cached_key in self:
                    del cache[cached_key]
        _next(self, key=key)
""")
b('C14', CACHE, """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        _next(self, key=key)
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
""")
# -- C15 ---------------------------------------------------------------------
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
""", """            try:
                del storage[key]
            except KeyError:
                if self.get(key) is None:
                    raise KeyError(key)
""")
b('C15', CACHE, """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        if key is not None:
            del self[key]
        else:
            self.clear()
            self.storage.clear()
""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]
""", """            for key in _keys(self):
                if key in storage:
                    del storage[key]
""")
# -- C16 ---------------------------------------------------------------------
b('C16', ALIAS, """        for key in _next(self):
            try:
                if""", """        for key in list(_next(self)):
            if isinstance(key, bytes):
                continue
            try:
                if""")
b('C16', ALIAS, """        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        try:
            _next(self, unaliased_key)
        except KeyError:
            if unaliased_key != key:
                _next(self, key)
                return
            raise KeyError(key)
""")
# -- C17 ---------------------------------------------------------------------
b('C17', ALIAS, """        if not prefixed_key.startswith(prefix):
            raise KeyError(""", """        if not prefixed_key.lower().startswith(prefix.lower()):
            raise KeyError(""")
b('C17', ALIAS, """        return (self.prefix or '') + key
""", """        prefix = self.prefix or ''
        return key if prefix and key.startswith(prefix) else prefix + key
""")
b('C17', ALIAS, """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict or key in self:
                return key
            raise e
""")
# -- C18 ---------------------------------------------------------------------
b('C18', UTILS, """            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
""", """            arg = decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
""")
b('C18', UTILS, """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
""", """        if isinstance(arg, (list, tuple)):
            if all(isinstance(x, UNICODE_TYPE) for x in arg[:1]):
                return arg
            arg = arg.__class__(map(self.decode, arg))
""")
b('C18', UTILS, """                if not self._soft:
                    raise
""", """                if not self._soft:
                    raise
                arg = arg.decode('latin-1')
""")
b('C18', UTILS, """        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
""", """        elif isinstance(arg, dict):
            for key in list(arg):
                arg[self.decode(key)] = self.decode(arg.pop(key))
""")
# -- C20 ---------------------------------------------------------------------
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
""", """        if self._notify_suppress:
            _next(self, key)
            return
        delnode = self.get(key)
        _next(self, key)
        if delnode is None:
            return
""")
b('C20', LIFECYCLE, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        notify_suppress = self.__class__._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""")
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=val.name))
""")
b('C20', LIFECYCLE, """            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
""", """            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=node.parent,
                                                  oldName=key))
""")
# -- C21 ---------------------------------------------------------------------
b('C21', LIFECYCLE, """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress:
            return
""", """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.__parent__._notify_suppress or not len(self):
            return
""")
b('C21', LIFECYCLE, """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__""", """        _next(self, key, val)
        if self.__parent__.root._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))

    @plumb
    def __delitem__""")
# -- C22 ---------------------------------------------------------------------
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        for subscriber in self.__subscribers__.get(event, ())[:]:
            if subscriber in self.__subscribers__[event]:
                subscriber(*args, **kw)
""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        for subscriber in list(self.__subscribers__.get(event, list())):
            try:
                subscriber(*args, **kw)
            except TypeError:
                subscriber()
""")
b('C22', EVENTS, """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
""", """            subscribers = self.__subscribers__.setdefault(event, list())
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
""")
b('C22', EVENTS, """            if event in self.__subscribers__:
                del self.__subscribers__[event]
""", """            if event in self.__subscribers__:
                del self.__subscribers__[event]
            if event in self.__events__:
                self.__events__.remove(event)
""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
""", """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    return
""")
# -- C23 ---------------------------------------------------------------------
b('C23', EVENTS, """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self""", """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        if value == self.default:
            storage.pop(self.name, None)
        else:
            storage[self.name] = value
        if self""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        if self.always_dispatch or value != old_value:
            if not self.subscribers and self.name not in obj.__subscribers__:
                return
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
            if storage[self.name] is not value:
                obj.dispatch(self.name, storage[self.name])
""")
b('C23', EVENTS, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
""", """        attribute_subscribers = _attribute_subscribers.subscribers
""", """    _attribute_subscribers.subscribers = subscribers
    yield
""", """    _attribute_subscribers.subscribers = subscribers
    try:
        yield
    finally:
        _attribute_subscribers.subscribers = list()
""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:
            with""", """        if self.always_dispatch or hash(value) != hash(old_value):
            with""")
b('C23', EVENTS, """        del getattr(obj, self.storage)[self.name]
        with""", """        storage = getattr(obj, self.storage)
        if self.name not in storage:
            return
        storage[self.name] = self.default
        with""")
# -- C24 ---------------------------------------------------------------------
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        self.data.suppress -= 1
        count = len(self.events)
        del self.data.events[:count]
""")
b('C24', EVENTS, """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        self.data.suppress += 1
        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)
        return self.data.suppress
""", """        for event in self.events:
            self.data.events.remove(event)
""", """        for event in self.events:
            if event in self.data.events:
                self.data.events.remove(event)
""")
b('C24', EVENTS, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
""")
# -- C26 ---------------------------------------------------------------------
b('C26', FALLBACK, """                if count > 0:
                    raise
                value""", """                if count > 0 and self.fallback_key is not _marker:
                    raise
                value""")
b('C26', FALLBACK, """    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
""", """    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(node, path=path, visited=visited)
        current = new_current
""")
b('C26', FALLBACK, """        except KeyError:
            with fallback""", """        except LookupError:
            with fallback""")
b('C26', FALLBACK, """                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
""", """                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
                self.storage[key] = value
""")
# -- C27 ---------------------------------------------------------------------
b('C27', LOCKING, """        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            with _creation_lock:
                self.lock = root._treelock = RLock()
""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn""", """        lock = TreeLock(self)
        try:
            lock.acquire()
            result = fn""")
b('C27', LOCKING, """    def __exit__(self, type, value, traceback):
        self.release()
""", """    def __exit__(self, type, value, traceback):
        try:
            self.release()
        except RuntimeError:
            return True
""")
# -- C28 ---------------------------------------------------------------------
b('C28', SERIALIZER, """            return '<UUID>:{}'.format(ob)
""", """            return '<UUID>:{}'.format(ob) if ob.int else None
""")
b('C28', SERIALIZER, """            key, self.decode(value, parent=parent))
            for key, value in data.items()
""", """            key, self.decode(value, parent=parent))
            for key, value in data.items() if value is not None
""")
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data.strip()
""")
b('C28', SERIALIZER, """            return [self.decode(it, parent=parent) for it in data]
""", """            return [self.decode(it, parent=parent) if isinstance(it, dict)
                    else it for it in data]
""")
b('C28', SERIALIZER, """        if ob is UNSET:
            return '<UNSET>'
""", """        if ob is UNSET:
            return None if self.simple_mode else '<UNSET>'
""")
# -- C29 ---------------------------------------------------------------------
b('C29', SERIALIZER, """    if children:
        data['children'] = children
""", """    if children:
        data['children'] = [child for child in children if child]
""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    for name, child in node.attrs.items():
        attrs[str(name).strip('_')] = encoder.default(child)
""")
b('C29', SERIALIZER, """                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif type(ob) is cls:
                    callback(self, ob, data)
            return ret
""")
b('C29', SERIALIZER, """    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in children:
        if child['__node__']['name'] not in node:
            decoder.decode(child, parent=node)
""")
b('C29', SERIALIZER, """        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        node = factory(**kw)
        node.__name__ = name
        if parent is not None:
            if name in parent:
                return parent[name]
            parent[name] = node
        return node
""")
# -- C30 ---------------------------------------------------------------------
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
        return child
""", """            child = self.factories[key]()
            self[key] = child
            child = child.root if child.parent is None else child
        return self.get(key) or child
""")
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
""", """            factory = self.factories.get(key, BaseFactory)
            child = factory()
            self[key] = child
""", """@implementer(IChildFactory)
class ChildFactory""", """class BaseFactory(dict):
    pass


@implementer(IChildFactory)
class ChildFactory""")
b('C30', COMMON, """        return self.factories.__iter__()
""", """        return iter(set(self.factories))
""")
b('C30', COMMON, """            self._children[key] = child

    @finalize
    def __delitem__(self, key):
        raise NotImplementedError('read-only')
""", """            self._children[key] = child

    @finalize
    def __delitem__(self, key):
        if key in self._children:
            raise NotImplementedError('read-only')
""")
# -- C31 ---------------------------------------------------------------------
b('C31', UTILS, """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__""", """        try:
            return context[name]
        except KeyError:
            return getattr(context, name)

    def __setattr__""")
b('C31', UTILS, """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value
""", """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        if isinstance(getattr(type(context), name, None), property):
            setattr(context, name, value)
            return
        context[name] = value
""")
b('C31', UTILS, """    def __getitem__(self, name):
        context = object.__getattribute__(self, 'context')
        return context[name]

    def __setitem__""", """    def __getitem__(self, name):
        context = object.__getattribute__(self, 'context')
        return context.get(name)

    def __setitem__""")
# -- C32 ---------------------------------------------------------------------
b('C32', UTILS, """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        for key in self.context:
            val = self.context[key]
            if val == value:
                return bool(key)
        return False
""")
b('C32', UTILS, """        for key in self.context:
            yield self.context[key]
""", """        seen = set()
        for key in self.context:
            if self.context[key] not in seen:
                seen.add(self.context[key])
                yield self.context[key]
""")
b('C32', UTILS, """    def __len__(self):
        return len(self.context)


@implementer(IAttributeAccess)""", """    def __len__(self):
        return len(set(self))


@implementer(IAttributeAccess)""")
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]
""", """        return [(v, self[v]) for v in self]
""")
# -- C33 ---------------------------------------------------------------------
b('C33', MAPPING, """    def update(self, *args, **kw):
""", """    def update(self, data=(), **kw):
""", """        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr""", """        if data:
            if hasattr""")
b('C33', NODIFY, """    def treerepr(self, indent=0, prefix=' '):
""", """    def treerepr(self, indent=0, prefix='  '):
""")
b('C33', COMMON, """    def setdefault(_next, self, key, default=None):
""", """    def setdefault(_next, self, key, default):
""")
b('C33', CACHE, """    @plumb
    def invalidate(_next, self, key=None):
        cache""", """    @plumb
    def invalidate(_next, self, key):
        cache""")
# -- C34 ---------------------------------------------------------------------
b('C34', NODIFY, """            if interface.providedBy(val):
                yield val
""", """            if val is not None and interface in val.__provides__:
                yield val
""")
b('C34', NODIFY, """            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
""", """            elif value is not None:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
""")
b('C34', NODIFY, """        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
""", """        items = self.items() \\
            if IOrdered.providedBy(self.root) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
""")
# -- C35 ---------------------------------------------------------------------
b('C35', UTILS, """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr""", """        try:
            return self.__dict__[attribute_name]
        except KeyError:
            setattr""")
b('C35', UTILS, """        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
""", """        if f_result is not None:
            f_result = UNICODE_TYPE(f_result) if isinstance(
                f_result, bytes) else f_result
            logger.debug(u'{}: --> {}'.format(func_name(func), f_result))
        return f_result
""")
b('C35', UTILS, """    def __len__(self):
        return 0

    def __repr__(self):
        return '<UNSET>'
""", """    def __len__(self):
        return 0

    def __eq__(self, other):
        return not other

    def __hash__(self):
        return 0

    def __repr__(self):
        return '<UNSET>'
""")
