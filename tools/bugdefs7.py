"""Seventh batch: the contract tester, and more from the statements."""
TB = 'testing/base.py'
TF = 'testing/fullmapping.py'

# C42
b('C42', TB, """            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """            try:
                func()
                writer.success()
            except (AttributeError, KeyError, TypeError, ValueError,
                    NotImplementedError) as e:
                writer.failed(e)
            except Exception as e:
                writer.failed(e)
                break
""")
b('C42', TB, """        for name in self.iface_contract:
            func = getattr""", """        for name in sorted(self.iface_contract):
            func = getattr""")
b('C42', TB, """        for name in self.iface_contract:
            func = getattr""", """        for name in self.iface_contract:
            if name in self._results:
                continue
            func = getattr""")
b('C42', TB, """            func = getattr(self, 'test_%s' % name, None)
            if func is None:
""", """            func = getattr(self, 'test_%s' % name, None) \\
                or getattr(self, 'test_%s' % name.strip('_'), None)
            if func is None:
""")
b('C42', TB, """            line = name + ': '
            if name in""", """            line = self.class_.__name__ + ': '
            if name in""")
b('C42', TB, """        if self.context is None:
            self.context = class_()
""", """        if not self.context:
            self.context = class_()
""")
b('C42', TB, """        self.results[self.name] = 'failed: {}'.format(repr(exc))
""", """        self.results.setdefault(self.name, 'failed: {}'.format(repr(exc)))
""")
b('C42', TF, """        if len(keys) != len(expected):
            raise Exception('Expected {}-length result. Got ``{}``'.format(
                len(expected),
                len(keys)
            ))
        for key in keys:
            if key not in expected:
                raise""", """        if len(set(keys)) != len(expected):
            raise Exception('Expected {}-length result. Got ``{}``'.format(
                len(expected),
                len(keys)
            ))
        for key in keys:
            if key not in expected:
                raise""")
b('C42', TF, """            if value is not self.context[key]:
                raise Exception('Expected {}, got {}'.format(
                    str(value),
                    str(self.context[key])
                ))
""", """            if value != self.context[key]:
                raise Exception('Expected {}, got {}'.format(
                    str(value),
                    str(self.context[key])
                ))
""")
b('C42', TF, """        if value is not default:
            raise Exception('Expected default, got %s' % str(value))
""", """        if value is not default and value is not None:
            raise Exception('Expected default, got %s' % str(value))
""")
b('C42', TF, """            self.context.pop('xxx')
            raise Exception('Expected ``KeyError`` for inexistent item.')
        except KeyError:
            pass
""", """            self.context.pop('xxx')
            raise KeyError('Expected ``KeyError`` for inexistent item.')
        except KeyError:
            pass
""")
b('C42', TF, """            if copied.__parent__ is not self.context.__parent__:
                raise Exception('__parent__ of copied does not match')
            self.context.__name__ = old_name
            self.context.__parent__ = old_parent
""", """            self.context.__name__ = old_name
            self.context.__parent__ = old_parent
            if copied.__parent__ is self.context.__parent__:
                raise Exception('__parent__ of copied does not match')
""")
b('C42', TF, """        if copied is self.context:
            raise Exception('``copied`` is ``context``')
""", """        if copied == self.context and copied.keys() != self.context.keys():
            raise Exception('``copied`` is ``context``')
""")
b('C42', TF, """        self.context.clear()
        self._check_keys(self.context.keys(), [])""", """        self.context.clear()
        self._check_keys([k for k in self.context.keys()
                          if k not in ('foo', 'bar')], [])""")
b('C42', TF, """        keys = [key for key in self.context.iterkeys()]""",
  """        keys = [key for key in self.context]""")
b('C42', TF, """        if not self.context.setdefault('bar', new) is new:
            raise""", """        if self.context.setdefault('bar', new) is None:
            raise""")

# others
b('C01', COMMON, """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:""", """        old_name = val.__name__
        old_parent = val.__parent__
        if old_parent is not self or key not in self:
            val.__name__ = key
            val.__parent__ = self
        try:""")
b('C01', COMMON, """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child""", """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = child.__name__ or key
            child.__parent__ = self
            self._children[key] = child""")
b('C01', ATTRS, """                self.attributes_factory(name='__attrs__', parent=self)""",
  """                self.attributes_factory(
                    name='__attrs__',
                    parent=self if self.__parent__ is None else self.root)""")
b('C02', COMMON, """        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        except Exception:
            if old_parent is not None:
                val.__name__ = old_name
                val.__parent__ = old_parent
            else:
                val.__name__ = val.__parent__ = None
            raise""")
b('C02', COMMON, """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise""", """        stored = False
        try:
            _next(self, key, val)
            stored = key in self
        except Exception:
            pass
        if not stored:
            val.__name__ = old_name
            val.__parent__ = old_parent
            _next(self, key, val)""")
b('C03', COMMON, """        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise""", """        if not self.allow_non_node_childs and not INode.providedBy(val) \\
                and not INode.implementedBy(type(val)):
            raise""")
b('C03', COMMON, """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise""", """        if inspect.isclass(val) and not self.allow_non_node_childs \\
                and not key.startswith('__'):
            raise""")
b('C04', REFERENCE, """            if keys.intersection(val._index.keys()):
                raise""", """            if int(val.uuid) in keys:
                raise""")
b('C04', REFERENCE, """            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:""", """            for node in list(val._index.values()):
                if node.__parent__ is not None:
                    node._index = self._index
            val._index = self._index
            try:""")
b('C04', REFERENCE, """                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""", """                for iuuid, node in val_index.items():
                    if node is not val:
                        del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise""")
b('C05', REFERENCE, """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid""", """        siuuid = int(self._uuid) if self._uuid is not None else None
        self._index[iuuid] = self
        if siuuid in self._index:
            del self._index[siuuid]
        self._uuid = uuid""")
b('C05', REFERENCE, """        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node""", """        if hasattr(node, '_index_nodes') and len(node._index) > 1:
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node""")
b('C05', REFERENCE, """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]""", """            for iuuid in todel._to_delete():
                removed[iuuid] = self._index.pop(iuuid)
                removed[iuuid]._index = removed""")
b('C06', ORDER, """        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:""", """        if hasattr(self, 'node'):
            if self.node(node.uuid) not in (None, self.root):""")
b('C06', ORDER, """        if node.name in self.storage:
            raise KeyError""", """        if node.name in self.storage and node.__parent__ is not self:
            raise KeyError""")
b('C06', ORDER, """    def swap(self, node_a, node_b):
        self.storage.swap(node_a.name, node_b.name)""", """    def swap(self, node_a, node_b):
        keys = list(self.storage)
        if keys.index(node_a.name) > keys.index(node_b.name):
            node_a, node_b = node_b, node_a
        if keys.index(node_a.name) + 1 == keys.index(node_b.name):
            node = self.storage[node_b.name]
            del self.storage[node_b.name]
            self.storage.insertafter(node_a.name, node_b.name, node)
        else:
            self.storage.swap(node_a.name, node_b.name)""")
b('C07', STORAGE, """    def __iter__(self):
        return self.storage.__iter__()""", """    def __iter__(self):
        return iter(sorted(self.storage, key=str)
                    if not hasattr(self.storage, 'swap') else self.storage)
""" if False else """    def __iter__(self):
        return iter([key for key in self.storage if key is not None])""")
b('C08', MAPPING, """        return [(key, self[key]) for key in self]""",
  """        return list(dict((key, self[key]) for key in self).items())""")
b('C08', MAPPING, """        try:
            self[key]
        except KeyError:
            return False
        return True""", """        try:
            self[key]
        except (KeyError, TypeError):
            return False
        return True""")
b('C09', MAPPING, """        for key in self.keys():
            del self[key]""", """        for key in self.keys():
            try:
                del self[key]
            except KeyError:
                continue""")
b('C09', MAPPING, """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key""", """            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            kw = dict(data, **kw)
        for key""")
b('C10', NODIFY, """        node = self.parent
        while node is not None:""", """        node = self.parent
        while node:""")
b('C10', UTILS, """        path = path.strip('/')
        path = path.split('/') if path else []""", """        path = [name for name in path.split('/') if name.strip()]""")
b('C11', COMMON, """            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)""",
  """            for child in node.values():
                # non-Node values have no uuid and no children
                if IUUIDAware.providedBy(child):
                    child.set_uuid_for(child, override, recursiv)""")
b('C12', NODESPACE, """          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)""", """          and key.endswith('__') \\
          and (key in self.nodespaces or len(key) > 4):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)""")
b('C13', ATTRS, """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None or attrs.__parent__ is not self:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
""")
b('C14', CACHE, """        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]""", """        try:
            return cache[key]
        except KeyError:
            value = _next(self, key)
            cache[getattr(value, '__name__', key) or key] = value
        return value""")
b('C15', CACHE, """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)""", """            if key in storage:
                del storage[key]
            elif key not in _keys(self):
                raise KeyError(key)
            else:
                self[key]
                del storage[key]""")
b('C16', ALIAS, """                if IEnumerableMapping.providedBy(self.aliaser):
                    # an""", """                if IEnumerableMapping.providedBy(self.aliaser) \\
                        or isinstance(self.aliaser, AliaserChain):
                    # an""")
b('C17', ALIAS, """        if not suffixed_key.endswith(suffix):
            raise KeyError""", """        if suffix not in suffixed_key[-2 * len(suffix):]:
            raise KeyError""")
b('C18', UTILS, """        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)""", """        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = arg.encode()""")
b('C19', COMMON, """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""", """        key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)""")
b('C20', LIFECYCLE, """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify""", """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        if notify_suppress:
            return node
        objectEventNotify""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        for subscriber in list(self.__subscribers__.get(event, list())):
            if subscriber in self.__subscribers__.get(event, list()):
                subscriber(*args, **kw)""")
b('C23', EVENTS, """        if self.always_dispatch or value != old_value:""",
  """        if self.always_dispatch or not value == old_value \\
                or isinstance(value, (list, dict)):""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.remove(event)""", """        if not self.data.suppress:
            del self.data.events[:]
            return
        for event in self.events:
            self.data.events.remove(event)""")
b('C24', EVENTS, """        for event in self.events:
            self.data.events.append(event)
        return""", """        for event in self.events:
            if event not in self.data.events:
                self.data.events.append(event)
        return""", """        for event in self.events:
            self.data.events.remove(event)""", """        for event in self.events:
            if event in self.data.events:
                self.data.events.remove(event)""")
b('C26', FALLBACK, """    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})""", """    if not getattr(parent, 'fallback_key', _marker) or node.name in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node.name})""")
b('C27', LOCKING, """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()""", """        root = node.root
        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            with _creation_lock:
                self.lock = root._treelock = RLock()""")
b('C28', SERIALIZER, """                return uuid.UUID(data[7:])""",
  """                return uuid.UUID(data.split(':')[-1])""")
b('C29', SERIALIZER, """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)""", """    children = data.get('children')
    if not children or len(node):
        return
    for child in children:
        decoder.decode(child, parent=node)""")
b('C29', SERIALIZER, """    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)""", """    for attr, value in attrs.items():
        node.attrs.setdefault(attr, decoder.decode(value))""")
b('C30', COMMON, """            child = self.factories[key]()
            self[key] = child
        return child""", """            child = self.factories[key]()
            self[key] = child
            child = _next(self, key)
        return child""")
b('C32', UTILS, """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)""", """        for key in self.context:
            if self.context[key] == value:
                return key
            if key == value and key not in self.context.values():
                break
        raise KeyError(value)""")
b('C35', UTILS, """    def __str__(self):
        return ''

    def __len__(self):
        return 0""", """    def __str__(self):
        return ''

    def __eq__(self, other):
        return self is other or type(self).__name__ == type(other).__name__

    def __hash__(self):
        return 0

    def __len__(self):
        return 0""")
