# fourth batch: other constructs (helpers, library functions, memos, guards)
# -- C01/C02/C03
b('C01', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key""", """        old_name = val.__name__
        old_parent = val.__parent__
        if old_parent is self and old_name is not None:
            key = old_name
        val.__name__ = key""")
b('C01', COMMON, """            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child""", """            child.__name__ = child.__name__ or key
            child.__parent__ = self
            self._children[key] = child""")
b('C01', COMMON, """        # We reroute through __getitem__ and __setitem__, skipping _next
        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default""", """        # We reroute through __getitem__ and __setitem__, skipping _next
        try:
            return self[key]
        except KeyError:
            if default is not None and not INode.providedBy(default):
                return _next(self, key, default)
            self[key] = default
            return self[key]""")
b('C01', ATTRS, """                self.attributes_factory(name='__attrs__', parent=self)""",
  """                self.attributes_factory('attrs', self)""")
b('C01', NODESPACE, """            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val""", """            self.nodespaces[key] = val
            if val.__parent__ is None:
                val.__name__ = key
                val.__parent__ = self""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except (KeyError, ValueError, TypeError, AttributeError):
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception as e:
            val.__name__, val.__parent__ = old_name, old_parent
            raise type(e)(*e.args)""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception:
            if val.__parent__ is self:
                val.__name__ = old_name
            val.__parent__ = old_parent
            if old_parent is not None and old_name in old_parent:
                val.__name__ = key
            raise""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):""",
  """        if not self.allow_non_node_childs and \\
                not INode.providedBy(val) and not hasattr(val, '__name__'):""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):""",
  """        if not self.allow_non_node_childs and type(val) is type:""")
b('C03', COMMON, """            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)""", """            if val is not None or key in self:
                raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)""")
b('C03', BASE, """    NodeChildValidate,
    Nodespaces,
    Adopt,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode""", """    Nodespaces,
    NodeChildValidate,
    Adopt,
    Attributes,
    Reference,
    Order,
    AsAttrAccess,
    DefaultInit,
    Nodify,
    OdictStorage)
class AttributedNode""")
# -- C04/C05
b('C04', REFERENCE, """            if keys.intersection(val._index.keys()):""",
  """            if val.__parent__ is not self and \\
                    keys.intersection(val._index.keys()):""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index""", """            for node in val.values():
                node._index = self._index""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index""", """            for iuuid, node in val._index.items():
                if iuuid is not None:
                    node._index = self._index""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index""", """                for iuuid, node in val_index.items():
                    self._index.pop(iuuid, None)
                    if node is not val:
                        node._index = dict(val_index)""")
b('C05', REFERENCE, """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]""", """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index.pop(iuuid)
            self._index.pop(None, None)""")
b('C05', REFERENCE, """        except Exception:
            self._index.update(removed)
            raise
        # the""", """        except KeyError:
            self._index.update(removed)
            raise
        # the""")
b('C05', REFERENCE, """        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel""", """        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                break
        return todel""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        self._index[iuuid] = self
        self._uuid = uuid
        if siuuid in self._index:
            del self._index[siuuid]""")
b('C05', REFERENCE, """        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        if iuuid in self._index:
            raise ValueError('Given uuid was already used for another Node')""")
b('C05', REFERENCE, """            node._index = {int(node.uuid): node}
            node._index_nodes()""", """            node._index = {int(node.uuid): node}
            if len(node):
                self._index_nodes()""")
# -- C06
b('C06', ORDER, """        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)""", """        refnode = self[keys[-1]]
        if newnode.name == refnode.name:
            return
        self.insertafter(newnode, refnode)""")
b('C06', ORDER, """        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)""", """        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            if len(self.storage):
                raise ValueError('Given reference node not child of self.')
            self.storage[newnode.name] = newnode
        self._setinserted(newnode)""")
b('C06', ORDER, """        self.storage.swap(node_a.name, node_b.name)""",
  """        if self.keys().index(node_a.name) < self.keys().index(node_b.name):
            self.storage.swap(node_a.name, node_b.name)""")
b('C06', ORDER, """        if node.name in self.storage:""",
  """        if node.name in self.storage and \\
                self.storage[node.name] is not node:""")
b('C06', ORDER, """        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:""",
  """        if hasattr(self, 'node') and node.parent is not None:
            if self.node(node.uuid) is not None:""")
# -- C07
b('C07', STORAGE, """    def __getitem__(self, key):
        return self.storage[key]""", """    def __getitem__(self, key):
        val = self.storage.get(key)
        if val is None:
            raise KeyError(key)
        return val""")
b('C07', STORAGE, """    def __setitem__(self, key, val):
        self.storage[key] = val""", """    def __setitem__(self, key, val):
        if self.storage.get(key) == val:
            return
        self.storage[key] = val""")
b('C07', STORAGE, """    def __iter__(self):
        return self.storage.__iter__()""", """    def __iter__(self):
        return iter(sorted(self.storage, key=str)
                    if len(self.storage) > 64 else self.storage)""")
b('C07', STORAGE, """    @default
    @instance_property
    def storage(self):
        return odict()""", """    @default
    @property
    def storage(self):
        if not getattr(self, '_storage', None):
            self._storage = odict()
        return self._storage""")
b('C07', STORAGE, """    @override
    def __delitem__(self, key):
        del self.storage[key]""", """    @override
    def __delitem__(self, key):
        storage = self.storage
        for stored in list(storage):
            if stored == key:
                del storage[stored]
                return
        raise KeyError(key)""")
# -- C08/C09
b('C08', MAPPING, """        return len(self.keys())""", """        return len(set(self))""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return [(key, self.get(key)) for key in self]""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True""", """        return self.get(key) is not None""")
b('C08', MAPPING, """        return [self[key] for key in self]""",
  """        return list(dict((key, self[key]) for key in self).values())""")
b('C08', MAPPING, """        return key in self

""", """        return key in self.keys()

""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        while len(self):
            self.popitem()""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in dict(data).items():
                self[key] = val""")
b('C09', MAPPING, """            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val""", """            val = self[key]
        except KeyError:
            if default is UNSET or default is None:
                raise
            return default
        del self[key]
        return val""")
b('C09', MAPPING, """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise""", """        for key in reversed(self.keys()):
            val = self.pop(key, None)
            return key, val
        raise""")
b('C09', MAPPING, """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default

    @default
    def pop""", """        val = self.get(key)
        if val is None:
            self[key] = val = default
        return val

    @default
    def pop""")
# -- C10
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path""", """        parent = self.parent
        if parent is None:
            return [self.name]
        if parent.parent is None:
            return [parent.name, self.name]
        return parent.path + [self.name]""")
b('C10', NODIFY, """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()""", """        path = [parent.name for parent in LocationIterator(self)
                if parent.name is not None]
        path.reverse()""")
b('C10', NODIFY, """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root""", """        root = self
        while root.parent is not None and root.parent.name is not None:
            root = root.parent
        return root""")
b('C10', NODIFY, """            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent""", """            if IInterface.providedBy(interface):
                if interface.providedBy(node):
                    return node
            elif type(node) is interface:
                return node
            node = node.parent""")
b('C10', UTILS, """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root""", """    if isinstance(path, STR_TYPE):
        path = [name for name in path.split('/') if name]
    if not path:
        return root""")
b('C10', UTILS, """    for name in path:
        node = node[name]
    return node""", """    for name in path:
        node = node.get(name)
        if node is None:
            raise KeyError(name)
    return node""")
# -- C11
b('C11', NODIFY, """        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new""", """        new.__name__ = self.__name__
        if self.__parent__ is not None:
            new.__parent__ = self.__parent__
        else:
            new.__parent__ = self
        return new""")
b('C11', COMMON, """            if override or not node.uuid:
                node.uuid = self.uuid_factory()""", """            if override or not node.uuid:
                node.uuid = self.uuid = self.uuid_factory()""")
b('C11', COMMON, """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)""",
  """        copied = _next(self)
        self.set_uuid_for(
            copied, self.overwrite_recursiv_on_copy,
            self.overwrite_recursiv_on_copy)""")
b('C11', COMMON, """            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)""",
  """            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child) and len(child):
                    self.set_uuid_for(child, override, recursiv)""")
b('C11', MAPPING, """        return copy.copy(self)""", """        new = self.__class__()
        new.__dict__.update(self.__dict__)
        return new""")
# -- C12/C13
b('C12', NODESPACE, """          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]""", """          and key.endswith('__') and key in self.nodespaces:
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]""")
b('C12', NODESPACE, """            self._nodespaces = odict()
            self._nodespaces['__children__'] = self""",
  """            self._nodespaces = odict()
            if '__attrs__' not in self._nodespaces:
                self._nodespaces['__children__'] = self.__parent__ or self""")
b('C12', NODESPACE, """            del self.nodespaces[key]
            return
        _next(self, key)""", """            self.nodespaces.pop(key, None)
            return
        _next(self, key)""")
b('C13', ATTRS, """        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)""",
  """        except KeyError:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            if self.__parent__ is not None or not self.name:
                self.nodespaces['__attrs__'] = attrs""")
b('C13', ATTRS, """        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs""", """        if self.attribute_access_for_attrs:
            return AttributeAccess(dict(attrs.items()))
        return attrs""")
b('C13', ATTRS, """            attrs = self.nodespaces['__attrs__']
        except KeyError:""", """            attrs = self.nodespaces['__attrs__']
            if not isinstance(attrs, self.attributes_factory):
                raise KeyError('__attrs__')
        except KeyError:""")
# -- C14/C15
b('C14', CACHE, """        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        except KeyError:
            pass
        value = _next(self, key)
        return cache.setdefault(key, value)""")
b('C14', CACHE, """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        cache = self.cache
        if len(cache) > 1000:
            self.cache.clear()
        value = cache.get(key, UNSET)
        if not value:
            value = cache[key] = _next(self, key)
        return value""")
b('C14', CACHE, """        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)""", """        _next(self, key, value)
        # reading the child down the plumbing chain populates the cache
        _evict(self.cache, key)""")
b('C14', CACHE, """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                return
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""")
b('C14', CACHE, """        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)""", """        else:
            for cached_key in _keys(self):
                cache.pop(cached_key, None)
        _next(self, key=key)""")
b('C15', CACHE, """            for key in _keys(self):
                del self[key]""", """            for key in list(self.iterkeys())[:len(self)]:
                if key in self:
                    del self[key]
                key = None""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)""", """            if key in storage or key in _keys(self):
                storage.pop(key, None)""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)""", """            if self.get(key) is None:
                raise KeyError(key)
            storage.pop(key, None)""")
b('C15', CACHE, """        else:
            for key in _keys(storage):
                del storage[key]""", """        else:
            for key in _keys(storage):
                if key in _keys(self):
                    del storage[key]""")
# -- C16/C17
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)""", """        try:
            return _next(self, unaliased_key)
        except KeyError:
            if unaliased_key == key:
                raise KeyError(key)
            return self[unaliased_key]""")
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)""", """        try:
            return _next(self, unaliased_key)
        except LookupError:
            raise KeyError(key)""")
b('C16', ALIAS, """        for key in _next(self):
            try:""", """        for key in sorted(_next(self)):
            try:""")
b('C17', ALIAS, """        if not prefixed_key.startswith(prefix):
            raise""", """        if prefix and not prefixed_key.startswith(prefix[0]):
            raise""")
b('C17', ALIAS, """        return prefixed_key[len(prefix):]""",
  """        return prefixed_key.split(prefix, 1)[1] if prefix \\
            else prefixed_key.lstrip()""")
b('C17', ALIAS, """        return suffixed_key[:len(suffixed_key) - len(suffix)]""",
  """        return suffixed_key.replace(suffix, '') if suffix \\
            else suffixed_key""")
b('C17', ALIAS, """    def alias(self, key):
        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e""", """    def alias(self, key):
        for alias in self:
            if self[alias] == key:
                return alias
        if self.strict and len(self):
            raise KeyError(key)
        return key""")
b('C17', ALIAS, """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key""", """        for aliaser in reversed(self.chain):
            try:
                key = aliaser.unalias(key)
            except KeyError:
                continue
        return key""")
# -- C18/C19
b('C18', UTILS, """            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)""", """            arg = dict([(k, self.encode(v)) for k, v in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)""")
b('C18', UTILS, """            arg = arg.encode(self._encoding)
        elif""", """            arg = arg.encode(self._encoding, 'replace')
        elif""")
b('C18', UTILS, """                if not self._soft:
                    raise""", """                if not self._soft:
                    raise
                arg = arg.decode(self._encoding, 'ignore') \\
                    if len(arg) > 1024 else arg""")
b('C18', UTILS, """            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            arg = arg.__class__(filter(None, map(self.decode, arg)))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""")
b('C19', COMMON, """        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""", """        if isinstance(val, (bytes, list)):
            val = decode(val)
        return _next(self, key, val)""")
b('C19', COMMON, """    @plumb
    def __getitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)

    @plumb
    def __setitem__""", """    @plumb
    def __getitem__(_next, self, key):
        try:
            return _next(self, key)
        except KeyError:
            if not isinstance(key, bytes):
                raise
            return _next(self, decode(key))

    @plumb
    def __setitem__""")
# -- C20/C21
b('C20', LIFECYCLE, """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))""",
  """        known = key in self
        _next(self, key, val)
        if self._notify_suppress or known:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))""")
b('C20', LIFECYCLE, """        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))""",
  """        objectEventNotify(self.events['removed'](
            delnode, oldParent=self, oldName=delnode.name))""")
b('C20', LIFECYCLE, """        finally:
            self._notify_suppress = notify_suppress""", """        finally:
            self._notify_suppress = Lifecycle._notify_suppress""")
b('C20', LIFECYCLE, """        _next(self, *args, **kw)
        objectEventNotify(self.events['created'](self))""",
  """        _next(self, *args, **kw)
        if self.__parent__ is None:
            objectEventNotify(self.events['created'](self))""")
b('C21', LIFECYCLE, """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))""",
  """        if key in self and self[key] == val:
            return
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))""")
b('C21', LIFECYCLE, """        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))""",
  """        _next(self, key)
        if self.__parent__._notify_suppress or not len(self):
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))""")
# -- C22..C25
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        for subscriber in list(self.__subscribers__.get(event, list())):
            try:
                subscriber(*args, **kw)
            except TypeError:
                subscriber(*args)""")
b('C22', EVENTS, """            if subscriber not in subscribers:
                subscribers.append(subscriber)""", """            if not any(sub is subscriber for sub in subscribers):
                subscribers.append(subscriber)""")
b('C22', EVENTS, """        if event is None and subscriber is None:
            self.__subscribers__ = dict()""", """        if event is None and subscriber is None:
            for subscribers in self.__subscribers__.values():
                for sub in subscribers:
                    subscribers.remove(sub)""")
b('C22', EVENTS, """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)""", """            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    break""")
b('C22', EVENTS, """        if event not in self.__events__:
            self.__events__.append(event)""", """        if event not in self.__events__:
            self.__class__.__events__.append(event)""")
b('C23', EVENTS, """        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:""",
  """        changed = storage.get(self.name) != value
        storage[self.name] = value
        if self.always_dispatch or changed:""")
b('C23', EVENTS, """        storage[self.name] = value
        if self.always_dispatch or value != old_value:""",
  """        if value == self.default:
            storage.pop(self.name, None)
        else:
            storage[self.name] = value
        if self.always_dispatch or value != old_value:""")
b('C23', EVENTS, """        return getattr(obj, self.storage).get(self.name, self.default)""",
  """        return getattr(obj, self.storage).get(self.name) or self.default""")
b('C23', EVENTS, """            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)""", """            with _subscribers(self.subscribers):
                obj.dispatch(self.name, storage.get(self.name, value))
            old_value = value
            storage[self.name] = old_value""")
b('C24', EVENTS, """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress""", """        self.data.suppress += 1
        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)
        return self.data.suppress""")
b('C24', EVENTS, """        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)""", """        self.data.suppress -= 1
        if not self.data.suppress:
            del self.data.events[:]""")
b('C24', EVENTS, """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return""", """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events[-1:]:
                return""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.remove(event)""", """        for event in self.events:
            if event in self.data.events:
                self.data.events.remove(event)
        return type_ is not None and issubclass(type_, StopIteration)""")
b('C25', EVENTS, """class _suppress_data(threading.local):
    \"\"\"Suppress state, initialized in every thread.
    \"\"\"

    def __init__(self):
        self.suppress = 0
        self.events = list()""", """class _suppress_data(threading.local):
    \"\"\"Suppress state, initialized in every thread.
    \"\"\"
    suppress = 0
    events = list()""")
b('C25', FALLBACK, """class fallback_processing(object):
    data = _processing_data()
""", """class fallback_processing(object):
    data = _processing_data()
    depth = -1
""", """        self.data.processing += 1
        return self.data.processing""", """        self.data.processing += 1
        fallback_processing.depth = max(
            fallback_processing.depth, self.data.processing)
        return fallback_processing.depth""", """        self.data.processing -= 1""",
  """        self.data.processing -= 1
        fallback_processing.depth = -1""")
# -- C26/C27
b('C26', FALLBACK, """    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:""", """    for name in path[len(current.path):]:
        new_current = current.get(name)
        if not new_current:""")
b('C26', FALLBACK, """    visited.update({node})
    fallback""", """    visited.update({parent})
    fallback""")
b('C26', FALLBACK, """        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise""", """        except KeyError:
            with fallback_processing() as count:
                if count > 1:
                    raise""")
b('C26', FALLBACK, """                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise""", """                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker or value is None:
                    raise""")
b('C27', LOCKING, """            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:""", """            self.lock = getattr(node, '_treelock', None) or \\
                getattr(root, '_treelock', None)
            if self.lock is None:""")
b('C27', LOCKING, """    def __exit__(self, type, value, traceback):
        self.release()""", """    def __exit__(self, type, value, traceback):
        if type is None or not issubclass(type, KeyboardInterrupt):
            self.release()""")
b('C27', LOCKING, """        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result""", """        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        except Exception:
            lock.release()
            raise
        lock.release()
        return result""")
# -- C28/C29
b('C28', SERIALIZER, """            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])""", """            if data.startswith('<UUID>:'):
                return uuid.UUID(data.lstrip('<UUID>:'))""")
b('C28', SERIALIZER, """            return '<UUID>:{}'.format(ob)""",
  """            return '<UUID>:{}'.format(ob.hex[:-1])""")
b('C28', SERIALIZER, """        if '__ob__' in data:
            return self.resolve(data['__ob__'])""", """        if list(data)[:1] == ['__ob__'] and '.' in data['__ob__']:
            try:
                return self.resolve(data['__ob__'])
            except ImportError:
                return data['__ob__']""")
b('C29', SERIALIZER, """        for child in children:
            decoder.decode(child, parent=node)""" if False else
  """    for child in children:
        decoder.decode(child, parent=node)""", """    for child in reversed(children):
        decoder.decode(child, parent=node)""")
b('C29', SERIALIZER, """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)""", """    for attr, value in attrs.items():
        if attr not in node.attrs:
            node.attrs[attr] = decoder.decode(value)""")
b('C29', SERIALIZER, """    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)""", """    for name, child in node.attrs.items():
        if child is not None:
            attrs[name] = encoder.default(child)""")
b('C29', SERIALIZER, """        name = data['name']
        if parent is not None:""", """        name = data['name']
        if parent is not None and name is not None and name not in parent:""")
b('C29', SERIALIZER, """            data['name'] = ob.name""", """            data['name'] = ob.name and str(ob.name)""")
# -- C30..C35
b('C30', COMMON, """            child.__parent__ = self
            self._children[key] = child""", """            child.__parent__ = self
            self._children.setdefault(key, child)""")
b('C31', UTILS, """    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value""", """    def __setattr__(self, name, value):
        if name in type(self).__dict__:
            return object.__setattr__(self, name, value)
        context = object.__getattribute__(self, 'context')
        context[name] = value""")
b('C31', UTILS, """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)""", """        try:
            return context[name]
        except KeyError:
            return getattr(context, name)""")
b('C32', UTILS, """        return len(self.context)""", """        return len(self.keys()) and len(set(self.keys()))""")
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]""",
  """        return list({v: k for k, v in self.context.items()}.items())""")
b('C34', NODIFY, """        return [val for val in self.filtereditervalues(interface)]""",
  """        return list(set(self.filtereditervalues(interface)))""")
b('C34', NODIFY, """            if INode.providedBy(value):
                res += value.treerepr""", """            if INode.providedBy(value) and len(value):
                res += value.treerepr""")
b('C35', UTILS, """        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)""",
  """        except AttributeError:
            value = func(self)
            self.__class__.__dict__.get('_values', {})[attribute_name] = value
            setattr(self, attribute_name, value)
            return func(self)""")
b('C35', UTILS, """    def __len__(self):
        return 0

    def __repr__(self):
        return '<UNSET>'""", """    def __len__(self):
        return 0

    def __eq__(self, other):
        return not other

    def __hash__(self):
        return hash('')

    def __repr__(self):
        return '<UNSET>'""")
# -- C40/C41
b('C40', COMMON, """    @default
    def uuid_factory(self):""", """    @override
    def uuid_factory(self):""", """from plumber import plumb
""", """from plumber import override
from plumber import plumb
""") if False else None
b('C40', COMMON, """    factories = default(odict())""", """    factories = override(odict())""")
b('C40', COMMON, """    allow_non_node_childs = default(False)""", """    allow_non_node_childs = override(False)""")
b('C40', COMMON, """        _next(self, *args, **kw)
        self.uuid = self.uuid_factory()""", """        _next(self, *args, **kw)
        self.uuid = uuid.uuid4()""")
b('C40', STORAGE, """class DictStorage(Storage):

    @default""", """class DictStorage(Storage):

    @override""")
b('C40', STORAGE, """class OdictStorage(Storage):

    @default""", """class OdictStorage(Storage):

    @override""")
b('C40', CACHE, """    def cache(self):
        \"\"\"Default""", """    def cache_(self):
        \"\"\"Default""", """    @plumb
    def invalidate(_next""", """    cache = override(cache_)

    @plumb
    def invalidate(_next""", "from plumber import plumb", "from plumber import override\nfrom plumber import plumb")
b('C40', MAPPING, """    @default
    def __len__(self):""", """    @override
    def __len__(self):""", "from plumber import default", "from plumber import default\nfrom plumber import override")
b('C40', MAPPING, """    @default
    def deepcopy(self):""", """    @override
    def deepcopy(self):""", "from plumber import default", "from plumber import default\nfrom plumber import override")
b('C41', NODIFY, """    def __nonzero__(self):
        return True""", """    def __nonzero__(self):
        return self.__name__ is not None or len(self) > 0""")
b('C41', NODIFY, """        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )

    __str__""", """        return '<%s object \\'%s\\' at %s>' % (
            class_name,
            self.name.split('/')[-1],
            hex(id(self))[:-1]
        )

    __str__""")
b('C41', NODIFY, """        return str(class_name) + ': ' + name[name.find(':') + 1:]""",
  """        return str(class_name) + ': ' + name[name.index(':') + 1:]
""", """        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return str""", """        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else ':%s' % self.name
        return str""")
b('C41', NODIFY, """    __bool__ = default(__nonzero__)""", """    __bool__ = default(lambda self: not hasattr(self, '__len__') or len(self) >= 0)""")
b('C41', ATTRS, """        return '<{} object \\'{}\\' at {}>'.format(
            self.__class__.__name__,
            name,""", """        return '<{} object \\'{}\\' at {}>'.format(
            self.__class__.__name__,
            self.__parent__.path[-1],""")
