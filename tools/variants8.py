"""More rewrites with other idioms."""
REFACTORINGS8 = []


def R(rel, *edits):
    REFACTORINGS8.append((rel, tuple(
        (edits[i], edits[i + 1]) for i in range(0, len(edits), 2))))


B = 'behaviors/'

# common
R(B + 'common.py', """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        found = False
        try:
            value = self[key]
            found = True
        except KeyError:
            value = default
        if not found:
            self[key] = value
        return value
""")
R(B + 'common.py', """        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        adopted = False
        try:
            _next(self, key, val)
            adopted = True
        finally:
            if not adopted:
                val.__name__, val.__parent__ = old_name, old_parent
""")
R(B + 'common.py', """        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
""", """        location = old_name, old_parent = val.__name__, val.__parent__
        val.__parent__ = self
        val.__name__ = key
""")
R(B + 'common.py', """        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children.update(
            (key, self._fixed_child(key, factory))
            for key, factory in self.fixed_children_factories)

    @default
    def _fixed_child(self, key, factory):
        child = factory()
        child.__name__ = key
        child.__parent__ = self
        return child
""")
R(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = odict()
        for item in self.fixed_children_factories:
            key = item[0]
            child = children[key] = item[1]()
            child.__name__, child.__parent__ = key, self
        self._children = children
""")
R(B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            msg = None
            if inspect.isclass(val):
                msg = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                msg = 'Non-node childs are not allowed.'
            if msg:
                raise ValueError(msg)
        _next(self, key, val)
""")
R(B + 'common.py', """        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__(_next, self, key):
        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)
""", """        _next(self, decode(key) if isinstance(key, bytes) else key)

    @plumb
    def __getitem__(_next, self, key):
        return _next(self, decode(key) if isinstance(key, bytes) else key)
""")
R(B + 'common.py', """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = [
            decode(arg) if isinstance(arg, bytes) else arg
            for arg in (key, val)
        ]
        return _next(self, key, val)
""")
R(B + 'common.py', """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        needed = IUUIDAware.providedBy(node) and (override or not node.uuid)
        if needed:
            node.uuid = self.uuid_factory()
        children = node.values() if recursiv else ()
        for child in children:
            # non-Node values have no uuid and no children
            if not INode.providedBy(child):
                continue
            self.set_uuid_for(child, override=override, recursiv=True)
""")
R(B + 'common.py', """        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
""", """        if not recursiv:
            return
        for child in filter(INode.providedBy, node.values()):
            self.set_uuid_for(child, override, recursiv)
""")
R(B + 'common.py', """            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
            self[key] = child = factory()
            return child
""")
R(B + 'common.py', """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            child = self[name]
        except KeyError:
            pass
        else:
            return child
        raise AttributeError(name)
""")

# nodify
R(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = []
        for parent in LocationIterator(self):
            path.insert(0, parent.name)
        return path
""")
R(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        parents = tuple(LocationIterator(self))
        return [parents[-i - 1].name for i in range(len(parents))]
""")
R(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        *_, root = LocationIterator(self)
        return root
""")
R(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
""")
R(B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        is_interface = IInterface.providedBy(interface)
        node = self.parent
        while node is not None:
            matches = is_interface and interface.providedBy(node)
            if matches or isinstance(node, interface):
                break
            node = node.parent
        return node
""")
R(B + 'nodify.py', """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        return (val for val in self.itervalues() if interface.providedBy(val))
""")
R(B + 'nodify.py', """        return [val for val in self.filtereditervalues(interface)]
""", """        values = list()
        values.extend(self.filtereditervalues(interface))
        return values
""")
R(B + 'nodify.py', """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=lambda item: UNICODE_TYPE(item[0]))
        child_indent = indent + 2
        lines = ['{}{}\\n'.format(indent * prefix, self.noderepr)]
        for key, value in items:
            if INode.providedBy(value):
                line = value.treerepr(indent=child_indent, prefix=prefix)
            else:
                line = '{}{}: {!r}\\n'.format(child_indent * prefix, key, value)
            lines.append(line)
        return ''.join(lines)
""")
R(B + 'nodify.py', """        node = self[key]
        del self[key]
        return node
""", """        try:
            return self[key]
        finally:
            del self[key]
""")
R(B + 'nodify.py', """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        new = _next(self)
        for attr in ('__name__', '__parent__'):
            setattr(new, attr, getattr(self, attr))
        return new
""")

# reference
R(B + 'reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            if any(iuuid in self._index for iuuid in val._index):
                raise ValueError('Node with uuid already exists')
""")
R(B + 'reference.py', """            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
""", """            if not set(self._index).isdisjoint(val._index):
                raise ValueError('Node with uuid already exists')
""")
R(B + 'reference.py', """        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
""", """        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
        removed = {iuuid: self._index.pop(iuuid) for iuuid in iuuids}
""")
R(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for child in self.values():
            try:
                contained = child._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                contained = ()
            todel.extend(contained)
        return todel
""")
R(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        iuuid, siuuid = [
            None if it is None else int(it) for it in (uuid, self._uuid)]
        if self._index.get(iuuid, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        self._index.pop(siuuid, None)
        self._index[iuuid] = self
        self._uuid = uuid
""")
R(B + 'reference.py', """        node = _next(self, key)
        # non-Node values and non referencing children have no index
        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node
""", """        node = _next(self, key)
        # non-Node values and non referencing children have no index
        if not hasattr(node, '_index_nodes'):
            return node
        index = dict()
        index[int(node.uuid)] = node
        node._index = index
        node._index_nodes()
        return node
""")

# order
R(B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        for key in self.keys():
            self.insertbefore(newnode, self[key])
            break
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""")
R(B + 'order.py', """        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
""", """        lookup = getattr(self, 'node', None)
        if lookup is not None and lookup(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        name = node.name
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')
""")
R(B + 'order.py', """        try:
            self[newnode.name] = newnode
        except Exception:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise
""", """        name = newnode.name
        done = False
        try:
            self[name] = newnode
            done = True
        finally:
            if not done:
                # refused by a behavior, e.g. because of duplicate uuids
                self.storage.__delitem__(name)
""")

# alias
R(B + 'alias.py', """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        index = len(self.chain)
        while index:
            index -= 1
            key = self.chain[index].unalias(key)
        return key
""")
R(B + 'alias.py', """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
""", """        result = key
        for i in range(len(self.chain)):
            result = self.chain[i].alias(result)
        return result
""")
R(B + 'alias.py', """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""", """        aliaser = self.aliaser
        whitelisting = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            if aliaser is not None:
                try:
                    key = aliaser.alias(key)
                except KeyError:
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    if whitelisting:
                        continue
                    raise
            yield key
""")
R(B + 'alias.py', """        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        length = len(prefix)
        if prefixed_key[:length] == prefix:
            return prefixed_key[length:]
        raise KeyError(u"key '{}' does not match prefix '{}'".format(
            prefixed_key,
            prefix
        ))
""")
R(B + 'alias.py', """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        for alias, real_key in self.items():
            if real_key == key:
                return alias
        if self.strict:
            raise KeyError(key)
        return key
""")
R(B + 'alias.py', """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        if self.strict:
            return self[aliased_key]
        return self.get(aliased_key, aliased_key)
""")

# nodespace
R(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is None:
            nodespaces = self._nodespaces = odict([('__children__', self)])
        return nodespaces
""")

# attributes
R(B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        nodespaces = self.nodespaces
        if '__attrs__' not in nodespaces:
            nodespaces['__attrs__'] = self.attributes_factory(
                name='__attrs__',
                parent=self
            )
        wrap = AttributeAccess if self.attribute_access_for_attrs else None
        attrs = nodespaces['__attrs__']
        return wrap(attrs) if wrap else attrs
""")

# serializer
R('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for cls, callback in serializer.registry.items():
                if (issubclass(cls, Interface) and cls.providedBy(ob)) \\
                        or isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""")
R('serializer.py', """            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
""", """            data = dict(name=ob.name)
            if self.include_class or not self.simple_mode:
                data['class'] = self.dotted_name(ob)
            ret = data if self.simple_mode else {'__node__': data}
""")
R('serializer.py', """        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
        super(NodeEncoder, self).__init__(**kw)
""", """        for flag in ('simple_mode', 'include_class'):
            if flag in kw:
                setattr(self, flag, kw.pop(flag))
        super(NodeEncoder, self).__init__(**kw)
""")
R('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if len(children) > 0:
        data.update(children=children)
""")
R('serializer.py', """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or ():
        decoder.decode(child, parent=node)
""")
R('serializer.py', """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    if 'attrs' in data:
        for attr in data['attrs']:
            node.attrs[attr] = decoder.decode(data['attrs'][attr])
""")
R('serializer.py', """        components = name.split('.')
        path = components[0]
        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        path, *components = name.split('.')
        ob = __import__(path)
        for comp in components:
            path = '{}.{}'.format(path, comp)
            if not hasattr(ob, comp):
                # module not imported yet
                __import__(path)
            ob = getattr(ob, comp)
        return ob
""")
R('serializer.py', """        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        node = factory(**kw)
        if parent is None:
            node.__name__ = name
            return node
        parent[name] = node
        return node
""")
R('serializer.py', """        return dict([
            (key, self.decode(value, parent=parent))
            for key, value in data.items()
        ])
""", """        decoded = {}
        for key in data:
            decoded[key] = self.decode(data[key], parent)
        return decoded
""")

# utils
R('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        keys = [key for key in self.context if self.context[key] == value]
        if not keys:
            raise KeyError(value)
        return keys[0]
""")
R('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        try:
            self[value]
        except KeyError:
            return False
        return True
""")
R('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(val == value for val in self)
""")
R('utils.py', """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    if obj is None:
        return
    yield obj
    for parent in LocationIterator(getattr(obj, '__parent__', None)):
        yield parent
""")
R('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
""", """        if isinstance(arg, (list, tuple)):
            return arg.__class__([self.decode(item) for item in arg])
        if isinstance(arg, dict):
            return dict(map(self.decode, iteritems(arg)))
        if isinstance(arg, bytes):
""")
R('utils.py', """        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
""", """        elif isinstance(arg, dict):
            arg = {
                self.encode(key): self.encode(value)
                for key, value in iteritems(arg)
            }
        elif isinstance(arg, bytes):
            decoded = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            arg = arg if isinstance(decoded, bytes) else self.encode(decoded)
""")
R('utils.py', """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = func(self)
        setattr(self, attribute_name, value)
        return value
""")
R('utils.py', """    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    node = root
    for name in path or ():
        node = node[name]
    return node
""")

# cache
R(B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        child = cache[key] = _next(self, key)
        return child
""")
R(B + 'cache.py', """        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""", """        keys = _keys(cache) if key is None else [key]
        for cached_key in keys:
            _evict(cache, cached_key)
        _next(self, key=key)
""")
R(B + 'cache.py', """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """        storage = self.storage
        if key is None:
            storage.clear()
            return
        if key not in _keys(self):
            raise KeyError(key)
        # key is valid, but maybe not on storage right now
        if key in storage:
            del storage[key]
""")
R(B + 'cache.py', """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        for name in _keys(self) if key is None else (key,):
            del self[name]
""")

# fallback
R(B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    while parent is not None:
        if getattr(parent, 'fallback_key', _marker) and node not in visited:
            visited.add(node)
            fallback = parent.get(parent.fallback_key, _marker)
            if fallback is not _marker:
                return _to_leaf(fallback, path=path, visited=visited)
        node, parent = parent, parent.__parent__
    return _marker
""")

# lifecycle
R(B + 'lifecycle.py', """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
""", """        node = self._silently(_next, key)
        event = self.events['detached']
        objectEventNotify(event(node, self, key))
        return node

    @default
    def _silently(self, func, *args):
        before, self._notify_suppress = self._notify_suppress, True
        try:
            return func(self, *args)
        finally:
            self._notify_suppress = before
""")
R(B + 'lifecycle.py', """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        child = self[key]
        location = dict(oldParent=self, oldName=key)
        _next(self, key)
        if not self._notify_suppress:
            event = self.events.get('removed')(child, **location)
            objectEventNotify(event)
""")
R(B + 'lifecycle.py', """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key, val)
        node = self.__parent__
        if node._notify_suppress is False:
            objectEventNotify(node.events['modified'](node))
""")

# mapping
R(B + 'mapping.py', """        for key in self.keys():
            del self[key]
""", """        keys = list(self.keys())
        while keys:
            del self[keys.pop(0)]
""")
R(B + 'mapping.py', """        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__(self, key):
""", """        missing = False
        try:
            value = self[key]
        except KeyError:
            missing = True
        return default if missing else value

    @default
    def __contains__(self, key):
""")
R(B + 'mapping.py', """        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        sources = list(args) + [kw]
        for source in sources:
            pairs = iteritems(source) if hasattr(source, ITER_FUNC) else source
            for name, child in pairs:
                self[name] = child
""")

# locking
R('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        root = node.root
        with _creation_lock:
            if getattr(root, '_treelock', None) is None:
                root._treelock = RLock()
            self.lock = root._treelock
""")
R('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = self._lock_of(node.root)

    @staticmethod
    def _lock_of(root):
        with _creation_lock:
            try:
                return root._treelock
            except AttributeError:
                root._treelock = lock = RLock()
                return lock
""")

# events
R(B + 'events.py', """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if event is None:
            names = list(self.__subscribers__)
        else:
            names = [event]
        for name in names:
            if subscriber is None:
                self.__subscribers__.pop(name, None)
                continue
            subscribers = self.__subscribers__.get(name, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""")
R(B + 'events.py', """        for event, subscriber in kw.items():
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """        for event in kw:
            known = event in self.__events__ or \\
                event in self.__class__.__events__
            if not known:
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = list()
            if kw[event] not in self.__subscribers__[event]:
                self.__subscribers__[event] += [kw[event]]
""")
R(B + 'events.py', """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        old_value = self.__get__(obj)
        getattr(obj, self.storage)[self.name] = value
        if not self.always_dispatch and not value != old_value:
            return
        self._notify(obj, value)

    def _notify(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""")
R(B + 'events.py', """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
""", """        if type(events) is list or type(events) is tuple:
            self.events = events
        else:
            self.events = [events]
""")
R(B + 'events.py', """        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress
""", """        data = self.data
        data.suppress = count = data.suppress + 1
        data.events.extend(self.events)
        return count
""")
R(B + 'storage.py', """        return self.storage.__iter__()
""", """        for key in self.storage:
            yield key
""")
