# third batch: cooperating sites, unusual inputs, faults at a point
# -- location, rollback, validation
b('C01', COMMON, """        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save""", """        if not INode.providedBy(val) or val.__parent__ is self:
            _next(self, key, val)
            return

        # save""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:""", """        if val.__name__ is None:
            val.__name__ = key
        val.__parent__ = self
        try:""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:""", """        val.__name__ = str(key)
        val.__parent__ = self
        try:""")
b('C01', COMMON, """        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)""", """        val.__parent__ = self
        try:
            _next(self, key, val)
            val.__name__ = key""")
b('C02', COMMON, """            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """            val.__parent__ = old_parent
            if old_parent is not None:
                val.__name__ = old_name
            raise""")
b('C02', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:""", """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except (KeyError, ValueError, TypeError):""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception as e:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise ValueError(str(e))""")
b('C01', COMMON, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default""", """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return self.get(key, default)""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):""",
  """        if not self.allow_non_node_childs and val is not None \\
                and not INode.providedBy(val):""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):""",
  """        if not self.allow_non_node_childs and inspect.isclass(val) \\
                and not INode.implementedBy(val):""")
b('C03', BASE, """@plumbing(
    NodeChildValidate,
    Adopt,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)""", """@plumbing(
    Adopt,
    NodeChildValidate,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)""")
# -- reference
b('C04', REFERENCE, """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):""", """            if val.uuid is not None and int(val.uuid) in self._index:""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index""", """            val._index = self._index
            for node in val.values():
                if hasattr(node, '_index'):
                    node._index = self._index""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""", """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                val._index = val_index
                raise""")
b('C04', REFERENCE, """                val._index = val_index
                raise
            return""", """                val._index = val_index
                raise
            self._index[int(val.uuid)] = val
            return""")
b('C05', REFERENCE, """                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]""", """                removed[iuuid] = self._index[iuuid]
            self._index.clear() if len(removed) == len(self._index) - 1 \\
                else [self._index.pop(i) for i in removed]""")
b('C05', REFERENCE, """            try:
                todel += self[childkey]._to_delete()
            except AttributeError:""", """            try:
                todel += self[childkey]._to_delete()
            except (AttributeError, KeyError):""")
b('C05', REFERENCE, """            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel""", """            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                break
        return todel""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid""", """        self._index[iuuid] = self
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._uuid = uuid""")
b('C05', REFERENCE, """        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()""", """        if hasattr(node, '_index_nodes') and len(node):
            node._index = {int(node.uuid): node}
            node._index_nodes()""")
b('C05', REFERENCE, """            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()""", """            self._index.setdefault(uuid, node)
            node._index = dict(self._index)
            node._index_nodes()""")
b('C05', REFERENCE, """        if iuuid in self._index \\
                and self._index[iuuid] is not self:""", """        if iuuid in self._index \\
                and self._index[iuuid] != self:""")
b('C04', REFERENCE, """        return self._index.get(int(uuid))
""", """        return self._index.get(uuid.int)
""")
# -- order
b('C06', ORDER, """        if node.name in self.storage:
            raise KeyError""", """        if node.name in self.storage and self.storage[node.name] is not node:
            raise KeyError""")
b('C06', ORDER, """        except Exception:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise""", """        except ValueError:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise""")
b('C06', ORDER, """        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)""", """        refnode = self[keys[-1]]
        self.insertbefore(newnode, refnode)
        self.swap(newnode, refnode)""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)""", """        if node_a.parent is self and node_b.parent is self:
            self.storage.swap(node_a.name, node_b.name)""")
# -- storage
b('C07', STORAGE, """    @override
    def __setitem__(self, key, val):
        self.storage[key] = val
""", """    @override
    def __setitem__(self, key, val):
        if key in self.storage:
            del self.storage[key]
        self.storage[key] = val
""")
b('C07', STORAGE, """    @override
    def __iter__(self):
        return self.storage.__iter__()
""", """    @override
    def __iter__(self):
        return iter(sorted(self.storage, key=str)) \\
            if type(self.storage) is dict else self.storage.__iter__()
""")
b('C07', STORAGE, """class OdictStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return odict()""", """class OdictStorage(Storage):
    _odict_storage = default(odict())

    @default
    @property
    def storage(self):
        if not self.__dict__.get('_storage'):
            self._storage = odict()
        return self._storage""")
# -- mapping
b('C08', MAPPING, """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        try:
            return self[key] or default
        except KeyError:
            return default

    @default
    def __contains__""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True""", """        try:
            self[key]
        except Exception:
            return False
        return True""")
b('C08', MAPPING, """        return len(self.keys())""", """        return len(set(self.keys()))""")
b('C08', MAPPING, """        return [self[key] for key in self]""",
  """        return [val for val in map(self.get, self) if val is not None]""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return list(zip(sorted(self, key=str), self.values()))
""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return [(self[key].name, self[key]) if hasattr(self[key], 'name')
                else (key, self[key]) for key in self]""")
b('C09', MAPPING, """            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val""", """            for key, val in dict(data).items():
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val""")
b('C09', MAPPING, """        for key, val in iteritems(kw):
            self[key] = val""", """        for key, val in iteritems(kw):
            self.setdefault(key, val)
            self[key] = val if val is not None else self[key]""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        for key in self.keys():
            try:
                del self[key]
            except KeyError:
                pass""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        while len(self):
            self.popitem()""")
b('C09', MAPPING, """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val""", """        try:
            val = self[key]
        except KeyError:
            if default is UNSET:
                raise
            return default
        try:
            del self[key]
        except KeyError:
            pass
        return val""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val""", """        for key in reversed(self.keys()):
            val = self.pop(key, None)
            return key, val""")
# -- path
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path""", """        path = [parent.name for parent in LocationIterator(self)
                if parent.name is not None]
        path.reverse()
        return path or [None]""")
b('C10', NODIFY, """        while node is not None:
            if (IInterface""", """        while node is not None and node is not node.root:
            if (IInterface""")
b('C10', UTILS, """        obj = getattr(obj, '__parent__', None)""", """        obj = getattr(obj, '__parent__', None) or None""")
b('C10', NODIFY, """                return node
            node = node.parent""", """                return node
            node = getattr(node, 'parent', None)
            if node is self:
                return None""")
# -- copies
b('C11', NODIFY, """        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new""", """        if new.__name__ is None:
            new.__name__ = self.__name__
        new.__parent__ = None
        return new""")
b('C11', COMMON, """            if override or not node.uuid:""", """            if override and not node.uuid or override:""")
b('C11', COMMON, """                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)""", """                if IUUIDAware.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)""")
b('C11', COMMON, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)""", """        copied = _next(self)
        copied.set_uuid_for(copied, True, copied.overwrite_recursiv_on_copy
                            and len(copied) > 0)
        copied.__parent__ = None""")
# -- nodespaces
b('C12', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val""", """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces.setdefault(key, val)""")
b('C12', NODESPACE, """            del self.nodespaces[key]
            return""", """            if key != '__children__':
                del self.nodespaces[key]
            return""")
b('C12', NODESPACE, """            return self.nodespaces[key]
        return _next(self, key)""", """            try:
                return self.nodespaces[key]
            except KeyError:
                pass
        return _next(self, key)""")
# -- attributes
b('C13', ATTRIBUTES, """        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)""",
  """        except KeyError:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            self['__attrs__'] = attrs
            attrs.__parent__ = self.parent or self""")
b('C13', ATTRIBUTES, """        self.__name__ = name
        self.__parent__ = parent
""", """        self.__name__ = name or '__attrs__'
        self.__parent__ = parent
""")
# -- cache
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        value = cache.get(key)
        if value is None:
            value = cache[key] = _next(self, key)
        elif getattr(value, '__parent__', self) is not self:
            value = _next(self, key)
        return value""")
b('C14', CACHE, """        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)

    @plumb
    def __delitem__""", """        finally:
            # reading the child down the plumbing chain populates the cache
            if value is not None:
                _evict(self.cache, key)

    @plumb
    def __delitem__""")
b('C14', CACHE, """        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """        else:
            for cached_key in _keys(self):
                cache.pop(cached_key, None)
        _next(self, key=key)""")
b('C14', CACHE, """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """            self.__dict__['_cache'] = dict()
        _next(self, key=key)""")
# -- invalidate
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)""", """            try:
                del storage[key]
            except KeyError:
                if key not in self:
                    raise""")
b('C15', CACHE, """            for key in _keys(storage):
                del storage[key]""", """            for key in _keys(storage):
                if key in self:
                    del storage[key]""")
b('C15', CACHE, """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]""", """        for k in _keys(self):
            if key is None or k == key:
                del self[k]""")
# -- alias
b('C16', ALIAS, """        except KeyError:
            raise KeyError(key)

    @plumb
    def __setitem__""", """        except KeyError as e:
            raise KeyError(*e.args)

    @plumb
    def __setitem__""")
b('C16', ALIAS, """        for key in _next(self):
            try:""", """        for key in set(_next(self)):
            try:""")
b('C16', ALIAS, """                if IEnumerableMapping.providedBy(self.aliaser):
                    # an""", """                if hasattr(self.aliaser, 'strict') or \\
                        IEnumerableMapping.providedBy(self.aliaser):
                    # an""")
b('C17', ALIAS, """        return (self.prefix or '') + key
""", """        prefix = self.prefix or ''
        return key if key.startswith(prefix) and prefix else prefix + key
""")
b('C17', ALIAS, """        return prefixed_key[len(prefix):]""", """        return prefixed_key.replace(prefix, '', 1) if prefix \\
            else prefixed_key.strip()""")
b('C17', ALIAS, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key""", """        for aliaser in reversed(self.chain):
            try:
                key = aliaser.unalias(key)
            except KeyError:
                if aliaser is self.chain[-1]:
                    raise
        return key""")
b('C17', ALIAS, """            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e""", """            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict and key not in self:
                return key
            raise e""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]""",
  """        return suffixed_key.rsplit(suffix, 1)[0] if suffix \\
            else suffixed_key.rstrip()""")
# -- codec
b('C18', UTILS, """            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            arg = dict([(k, self.decode(v)) for k, v in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""")
b('C18', UTILS, """                if not self._soft:
                    raise
        elif""", """                if not self._soft:
                    raise
                arg = arg.decode(self._encoding, 'replace')
        elif""")
b('C18', UTILS, """            arg = arg.encode(self._encoding)
        elif""", """            arg = arg.encode(self._encoding, 'ignore')
        elif""")
b('C18', UTILS, """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """        if isinstance(arg, list):
            arg[:] = map(self.decode, arg)
        elif isinstance(arg, tuple):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""", """        if isinstance(key, bytes):
            key = decode(key)
        val = decode(val)
        return _next(self, key, val)""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""", """        if isinstance(key, bytes):
            key = decode(key)
        elif isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""")
# -- lifecycle
b('C20', LIFECYCLE, """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return""", """        if self._notify_suppress:
            return _next(self, key)
        delnode = self.get(key)
        _next(self, key)""")
b('C20', LIFECYCLE, """        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        finally:
            self._notify_suppress = notify_suppress
        if notify_suppress:
            return node
        objectEventNotify""")
b('C20', LIFECYCLE, """        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))""", """        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=val.__name__))""")
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added']""", """        known = key in self
        _next(self, key, val)
        if self._notify_suppress or known and self[key] is val:
            return
        objectEventNotify(self.events['added']""")
b('C21', LIFECYCLE, """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__""", """        changed = self.get(key, self) is not val
        _next(self, key, val)
        if self.__parent__._notify_suppress or not changed:
            return
        objectEventNotify(self.__parent__""")
b('C21', LIFECYCLE, """        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))""",
  """        if not self.__parent__._notify_suppress:
            objectEventNotify(
                self.__parent__.events['modified'](self.__parent__))
        _next(self, key)""")
# -- events
b('C22', EVENTS, """            if subscriber not in subscribers:
                subscribers.append(subscriber)""", """            if subscriber not in subscribers:
                subscribers.insert(0, subscriber)""")
b('C22', EVENTS, """            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:""", """            if event not in self.__events__ \\
                    and not hasattr(self.__class__, event) \\
                    and event not in self.__class__.__events__:""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)""", """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    break""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        for subscriber in list(self.__subscribers__.get(event, list())):
            if subscriber(*args, **kw) is False:
                break""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        error = None
        for subscriber in list(self.__subscribers__.get(event, list())):
            try:
                subscriber(*args, **kw)
            except AttributeError as e:
                error = e
        if error is not None and not args:
            raise error""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:""", """        if self.always_dispatch or (
                value != old_value and old_value is not UNSET):""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:""", """        if self.always_dispatch or not (
                value is old_value or value == old_value):""")
b('C23', EVENTS, """        del getattr(obj, self.storage)[self.name]
        with""", """        getattr(obj, self.storage).pop(self.name, None)
        with""")
b('C23', EVENTS, """            if attr not in events:
                events.append(attr)
            val.name = attr""", """            if attr not in events:
                events.append(attr)
            val.name = val.name or attr""")
b('C23', EVENTS, """            if attr not in events:
                events.append(attr)
            val.name = attr""", """            if attr not in events:
                events.append(attr)
                val.name = attr""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)""", """        self.data.suppress -= 1
        if not self.data.suppress:
            del self.data.events[:]""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.remove(event)""", """        del self.data.events[:len(self.events)]""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.append(event)
        return""", """        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)
        return""", """        for event in self.events:
            self.data.events.remove(event)""", """        for event in self.events:
            if event in self.data.events:
                self.data.events.remove(event)""")
b('C24', EVENTS, """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:""", """        attribute_subscribers = _attribute_subscribers.subscribers
        if suppress_events.data.suppress > 0:""", """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)""", """        _attribute_subscribers.subscribers = list()
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)""")
b('C25', EVENTS, """_attribute_subscribers = _subscribers_data()
""", """_attribute_subscribers = _subscribers_data()
_attribute_subscribers_lock = threading.Lock()
""", """class _subscribers_data(threading.local):""", """class _subscribers_data(object):""")
b('C25', 'behaviors/fallback.py', """        self.data.processing += 1
        return""", """        fallback_processing.data.__dict__.setdefault('processing', -1)
        type(self).data.processing += 1
        return""", """class _processing_data(threading.local):""", """class _processing_data(object):""")
# -- fallback
b('C26', FALLBACK, """                if count > 0:
                    raise""", """                if count > 1:
                    raise""")
b('C26', FALLBACK, """    visited.update({node})
    fallback""", """    visited.update({parent})
    fallback""")
b('C26', FALLBACK, """    for name in path[len(current.path):]:""", """    for name in path[len(current.path):] or path[-1:]:""")
b('C26', FALLBACK, """        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)""", """        if new_current is _marker:
            return _to_root(node, path=path, visited=visited)""")
b('C26', FALLBACK, """        if new_current is _marker:
            return""", """        if new_current is _marker or new_current is None:
            return""")
b('C26', FALLBACK, """                value = _to_root(self, path=self.path + [key], visited=set())""",
  """                value = _to_root(self, path=self.path + [key],
                                 visited={self.root})""")
# -- locking
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        TreeLock(self).acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            TreeLock(self).release()
        return result""")
b('C27', LOCKING, """        root = node.root
        with""", """        root = node.root if node.parent is not None else node.__parent__ or node
        root = getattr(root, 'context', root)
        with""")
b('C27', LOCKING, """    def release(self):
        self.lock.release()
""", """    def release(self):
        try:
            self.lock.release()
        except RuntimeError:
            pass
""")
b('C27', LOCKING, """    def __exit__(self, type, value, traceback):
        self.release()""", """    def __exit__(self, type, value, traceback):
        self.release()
        return type is not None and issubclass(type, KeyError)""")
# -- serializer
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])""", """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:].split(':')[0])
            if data.startswith('<') and data.endswith('>'):
                return data[1:-1]""")
b('C28', SERIALIZER, """            return [self.decode(it, parent=parent) for it in data]""",
  """            return [self.decode(it, parent=parent) for it in data
                    if it is not None]""")
b('C28', SERIALIZER, """            if self.simple_mode:
                return self.dotted_name(ob)
            return {'__ob__'""", """            if self.simple_mode and not self.include_class:
                return self.dotted_name(ob)
            return {'__ob__'""")
b('C28', SERIALIZER, """                cls = ob.__self__ if isclass(ob.__self__) else type(ob.__self__)
            return '.'.join([self.dotted_name(cls), ob.__name__])""", """                cls = ob.__self__ if isclass(ob.__self__) else type(ob.__self__)
            return '.'.join([self.dotted_name(cls), ob.__func__.__qualname__
                             .split('.')[0]]) if not ob.__name__ else \\
                '.'.join([ob.__module__, ob.__qualname__])""")
b('C29', SERIALIZER, """    for child in node.values():
        children.append(encoder.default(child))""", """    for child in node.values():
        if getattr(child, '__parent__', node) is not node:
            continue
        children.append(encoder.default(child))""")
b('C29', SERIALIZER, """        if parent is not None:
            node = parent[name]""", """        if parent is not None and name:
            node = parent[name]""")
b('C29', SERIALIZER, """        kw = self.decode(data.get('kw', dict()))""", """        kw = self.decode(data.pop('kw', dict()), parent=parent)""")
b('C29', SERIALIZER, """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)""", """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value, parent=node)""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)""", """    for name, child in node.attrs.items():
        if child is not None:
            attrs[name] = encoder.default(child)""")
# -- children
b('C30', COMMON, """        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child""", """        except KeyError:
            child = self.factories[key]()
            self[key] = child
            child = _next(self, key)
        return child""")
b('C30', COMMON, """        return self.factories.__iter__()""", """        return iter([k for k in self.factories if self.factories[k]])""")
b('C30', COMMON, """            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child""", """            child.__name__ = key
            child.__parent__ = self
            self._children.setdefault(child.__name__, child)""")
b('C31', UTILS, """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)""", """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            return getattr(context, name)""")
b('C31', UTILS, """        context = object.__getattribute__(self, 'context')
        del context[name]""", """        context = object.__getattribute__(self, 'context')
        context.pop(name, None)""")
b('C32', UTILS, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)""", """        for key in reversed(list(self.context)):
            if self.context[key] == value:
                return key
        raise KeyError(value)""")
b('C32', UTILS, """            val = self.context[key]
            if val == value:
                return True
        return False""", """            val = self.context[key]
            if val is value or val == value and type(val) is type(value):
                return True
        return False""")
b('C34', NODIFY, """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val""", """        for val in self.values():
            if interface.providedBy(val) or interface.implementedBy(type(val)):
                yield val""")
b('C34', NODIFY, """            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))""",
  """            else sorted(self.items())""")
b('C34', NODIFY, """                res += value.treerepr(indent=indent + 2, prefix=prefix)""",
  """                res += value.treerepr(indent=indent + 2)""")
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""", """            value = func(self)
            if value is not None:
                setattr(self, attribute_name, value)
            return value""")
b('C35', UTILS, """        attribute_name = '_{}'.format(func.__name__)""", """        attribute_name = '__{}'.format(func.__name__).strip('_')
        attribute_name = '_' + attribute_name""")
b('C35', UTILS, """        f_result = func(*args, **kws)
        logger""", """        try:
            f_result = func(*args, **kws)
        except Exception:
            logger.exception(func_name(func))
            return None
        logger""")
