"""Yet more refactorings keeping the behaviour: bigger restructurings."""
B = 'behaviors/'
REFACTORINGS4 = []


def r(rel, *edits):
    REFACTORINGS4.append((rel, tuple(zip(edits[::2], edits[1::2]))))


# -- alias -------------------------------------------------------------------

GET = """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
"""
SET = """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
"""
DEL = """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)

    @plumb
    def __iter__"""
HEAD = """@implementer(IAlias)
class Alias(Behavior):
"""
r(B + 'alias.py', HEAD, """@contextmanager
def _reporting(key):
    try:
        yield
    except KeyError:
        raise KeyError(key)


def _unalias(node, key):
    return key if node.aliaser is None else node.aliaser.unalias(key)


""" + HEAD, GET, """        unaliased_key = _unalias(self, key)
        with _reporting(key):
            return _next(self, unaliased_key)
""", SET, """        unaliased_key = _unalias(self, key)
        with _reporting(key):
            _next(self, unaliased_key, val)
""", DEL, """        unaliased_key = _unalias(self, key)
        with _reporting(key):
            _next(self, unaliased_key)

    @plumb
    def __iter__""", 'from node.interfaces import IAlias\n',
  'from contextlib import contextmanager\nfrom node.interfaces import IAlias\n')
r(B + 'alias.py', HEAD, """def _call_aliased(_next, node, key, *args):
    aliaser = node.aliaser
    if aliaser is None:
        real = key
    else:
        real = aliaser.unalias(key)
    try:
        return _next(node, real, *args)
    except KeyError:
        raise KeyError(key)


""" + HEAD, GET, """        return _call_aliased(_next, self, key)
""", SET, """        _call_aliased(_next, self, key, val)
""", DEL, """        _call_aliased(_next, self, key)

    @plumb
    def __iter__""")
r(B + 'alias.py', HEAD, """class _Identity(object):

    def alias(self, key):
        return key

    def unalias(self, key):
        return key


_identity = _Identity()


def _aliaser(node):
    return _identity if node.aliaser is None else node.aliaser


""" + HEAD, GET, """        unaliased_key = _aliaser(self).unalias(key)
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", SET, """        unaliased_key = _aliaser(self).unalias(key)
        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""")
ITER = """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
"""
r(B + 'alias.py', ITER, """        aliaser = self.aliaser
        if aliaser is None:
            for key in _next(self):
                yield key
            return
        whitelist = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            try:
                alias = aliaser.alias(key)
            except KeyError:
                if not whitelist:
                    raise
            else:
                yield alias
""")
r(B + 'alias.py', ITER, """        for key in _next(self):
            if self.aliaser is None:
                yield key
                continue
            try:
                key = self.aliaser.alias(key)
            except KeyError:
                # an enumerable aliaser whitelists, we skip non-listed keys
                if not IEnumerableMapping.providedBy(self.aliaser):
                    raise
                continue
            yield key
""")
r(B + 'alias.py', """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        mapping = ReverseMapping(self)
        if self.strict:
            return mapping[key]
        return mapping.get(key, key)
""")
r(B + 'alias.py', """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        if not self.strict and aliased_key not in self:
            return aliased_key
        return self[aliased_key]
""")
r(B + 'alias.py', """        try:
            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """        return self[aliased_key] if self.strict \\
            else self.get(aliased_key, aliased_key)
""")
r(B + 'alias.py', """        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key

    def unalias(self, key):
        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        return self._apply('alias', self.chain, key)

    def unalias(self, key):
        return self._apply('unalias', reversed(self.chain), key)

    def _apply(self, method, aliasers, key):
        for aliaser in aliasers:
            key = getattr(aliaser, method)(key)
        return key
""")
r(B + 'alias.py', """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        translated = key
        for aliaser in self.chain[::-1]:
            translated = aliaser.unalias(translated)
        return translated
""")
r(B + 'alias.py', """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix if self.prefix else ''
        if prefixed_key.startswith(prefix):
            return prefixed_key[len(prefix):]
        msg = u"key '{}' does not match prefix '{}'"
        raise KeyError(msg.format(prefixed_key, prefix))
""")
r(B + 'alias.py', """        suffix = self.suffix or ''
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:len(suffixed_key) - len(suffix)]
""", """        suffix = self.suffix
        if not suffix:
            return suffixed_key
        if not suffixed_key.endswith(suffix):
            raise KeyError(u"key '{}' does not match suffix '{}'".format(
                suffixed_key,
                suffix
            ))
        return suffixed_key[:-len(suffix)]
""")
r(B + 'alias.py', """        self.chain = (PrefixAliaser(prefix), SuffixAliaser(suffix))
""", """        prefixer = PrefixAliaser(prefix=prefix)
        suffixer = SuffixAliaser(suffix=suffix)
        super(PrefixSuffixAliaser, self).__init__((prefixer, suffixer))
""")

# -- attributes, cache -------------------------------------------------------

ATTRS = """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
"""
r(B + 'attributes.py', ATTRS, """        attrs = _lookup_attrs(self)
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs
""", """@implementer(IAttributes)
""", """ATTRS_KEY = '__attrs__'


def _lookup_attrs(node):
    spaces = node.nodespaces
    if ATTRS_KEY not in spaces:
        spaces[ATTRS_KEY] = node.attributes_factory(
            name=ATTRS_KEY,
            parent=node
        )
    return spaces[ATTRS_KEY]


@implementer(IAttributes)
""")
r(B + 'attributes.py', ATTRS, """        nodespaces = self.nodespaces
        attrs = nodespaces.get('__attrs__')
        if attrs is None:
            factory = self.attributes_factory
            attrs = factory(name='__attrs__', parent=self)
            nodespaces['__attrs__'] = attrs
        if not self.attribute_access_for_attrs:
            return attrs
        return AttributeAccess(attrs)
""")
r(B + 'attributes.py', """        self.__name__ = name
        self.__parent__ = parent
        self.context = parent  # B/C 2011-01-31
        self._node = parent    # B/C 2011-01-31
""", """        self._node = self.context = parent  # B/C 2011-01-31
        self.__name__, self.__parent__ = name, parent
""")
r(B + 'attributes.py', """        node = self if self.parent is None else self.parent
        name = node.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(node.name, unicode) \\
            else str(node.name)
        return '<{} object \\'{}\\' at {}>'.format(
            self.__class__.__name__,
            name,
            hex(id(self))[:-1]
        )
""", """        node = self.parent
        if node is None:
            node = self
        name = node.name
        if IS_PY2 and isinstance(name, unicode):
            name = name.encode('ascii', 'replace')
        else:
            name = str(name)
        cls_name = type(self).__name__
        return "<{} object '{}' at {}>".format(
            cls_name, name, hex(id(self))[:-1])
""")
INV = """        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
"""
r(B + 'cache.py', INV, """        if key is None:
            self.cache.clear()
        else:
            _evict(self.cache, key)
        _next(self, key=key)
""")
r(B + 'cache.py', INV, """        cache = self.cache
        for cached_key in _keys(cache) if key is None else [key]:
            _evict(cache, cached_key)
        _next(self, key=key)
""")
r(B + 'cache.py', INV, """        cache = self.cache
        if key is None:
            doomed = _keys(cache)
        else:
            doomed = (key,)
        for cached_key in doomed:
            cache.pop(cached_key, None)
        _next(self, key=key)
""")
WR = """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
"""
DL = """        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key)
        finally:
            # reading the child down the plumbing chain populates the cache
            _evict(self.cache, key)
"""
r(B + 'cache.py', WR, """        with _evicting(self, key):
            _next(self, key, value)
""", DL, """        with _evicting(self, key):
            _next(self, key)
""", """@implementer(ICache)
""", """@contextmanager
def _evicting(node, key):
    _evict(node.cache, key)
    try:
        yield
    finally:
        # reading the child down the plumbing chain populates the cache
        _evict(node.cache, key)


@implementer(ICache)
""", 'from node.compat import IS_PY2\n',
  'from contextlib import contextmanager\nfrom node.compat import IS_PY2\n')
r(B + 'cache.py', WR, """        _changing(_next, self, key, value)
""", DL, """        _changing(_next, self, key)
""", """@implementer(ICache)
""", """def _changing(_next, node, key, *args):
    _evict(node.cache, key)
    try:
        _next(node, key, *args)
    finally:
        # reading the child down the plumbing chain populates the cache
        _evict(node.cache, key)


@implementer(ICache)
""")
r(B + 'cache.py', """def _evict(cache, key):
    try:
        del cache[key]
    except KeyError:
        pass
""", """def _evict(cache, key):
    if key in cache:
        del cache[key]
""")
r(B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        value = _next(self, key)
        cache[key] = value
        return value
""")
r(B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        try:
            value = self.cache[key]
        except KeyError:
            value = _next(self, key)
            self.cache[key] = value
        return value
""")
VOL = """        storage = self.storage
        if key is not None:
            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
"""
r(B + 'cache.py', VOL, """        if key is None:
            self._invalidate_all()
        else:
            self._invalidate_one(key)

    @default
    def _invalidate_all(self):
        storage = self.storage
        for key in _keys(storage):
            del storage[key]

    @default
    def _invalidate_one(self, key):
        if key not in _keys(self):
            raise KeyError(key)
        # ignore if key is valid, but not on storage right now
        self.storage.pop(key, None)
""")
r(B + 'cache.py', VOL, """        storage = self.storage
        if key is None:
            storage.clear()
            return
        if key not in list(self):
            raise KeyError(key)
        if key in storage:
            del storage[key]
""")
r(B + 'cache.py', """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        keys = _keys(self) if key is None else [key]
        for name in keys:
            del self[name]
""")
r(B + 'cache.py', """        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        if key is None:
            for child_key in tuple(self.keys()):
                self.__delitem__(child_key)
            return
        self.__delitem__(key)
""")

# -- common ------------------------------------------------------------------

AD = """        # only care about adopting if we have a node
        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
"""
r(B + 'common.py', AD, """        if INode.providedBy(val):
            with _adopted(val, key, self):
                _next(self, key, val)
        else:
            _next(self, key, val)
""", """@implementer(IAdopt)
class Adopt""", """@contextmanager
def _adopted(node, name, parent):
    old_name, old_parent = node.__name__, node.__parent__
    node.__name__, node.__parent__ = name, parent
    try:
        yield node
    except Exception:
        node.__name__, node.__parent__ = old_name, old_parent
        raise


@implementer(IAdopt)
class Adopt""", 'from node.interfaces import IAdopt\n',
  'from contextlib import contextmanager\nfrom node.interfaces import IAdopt\n')
r(B + 'common.py', AD, """        # only care about adopting if we have a node
        is_node = INode.providedBy(val)
        if is_node:
            location = (val.__name__, val.__parent__)
            _locate(val, key, self)
        try:
            _next(self, key, val)
        except Exception:
            if is_node:
                _locate(val, *location)
            raise
""", """@implementer(IAdopt)
class Adopt""", """def _locate(node, name, parent):
    node.__name__ = name
    node.__parent__ = parent


@implementer(IAdopt)
class Adopt""")
r(B + 'common.py', AD, """        if not INode.providedBy(val):
            return _next(self, key, val)
        before = val.__parent__, val.__name__
        val.__parent__, val.__name__ = self, key
        done = False
        try:
            _next(self, key, val)
            done = True
        finally:
            if not done:
                val.__parent__, val.__name__ = before
""")
r(B + 'common.py', """        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
""", """        try:
            value = self[key]
        except KeyError:
            value = self[key] = default
        return value
""")
r(B + 'common.py', """        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
        child = factory()
        self[key] = child
        return child
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = self._children = odict()
        for key, factory in self.fixed_children_factories:
            children[key] = _fixed_child(factory, key, self)
""", """@implementer(IFixedChildren)
""", """def _fixed_child(factory, name, parent):
    child = factory()
    child.__name__ = name
    child.__parent__ = parent
    return child


@implementer(IFixedChildren)
""")
r(B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        self._children = odict()
        for item in self.fixed_children_factories:
            name, factory = item
            self._children[name] = child = factory()
            child.__parent__ = self
            child.__name__ = name
""")
VAL = """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
"""
r(B + 'common.py', VAL, """        if not self.allow_non_node_childs:
            _validate_child(val)
        _next(self, key, val)
""", """@implementer(INodeChildValidate)
""", """def _validate_child(child):
    if inspect.isclass(child):
        raise ValueError('It isn\\'t allowed to use classes as values.')
    if not INode.providedBy(child):
        raise ValueError('Non-node childs are not allowed.')


@implementer(INodeChildValidate)
""")
r(B + 'common.py', VAL, """        msg = None
        if not self.allow_non_node_childs:
            if inspect.isclass(val):
                msg = 'It isn\\'t allowed to use classes as values.'
            elif not INode.providedBy(val):
                msg = 'Non-node childs are not allowed.'
        if msg:
            raise ValueError(msg)
        _next(self, key, val)
""")
r(B + 'common.py', """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = [
            decode(it) if isinstance(it, bytes) else it
            for it in (key, val)
        ]
        return _next(self, key, val)
""")
r(B + 'common.py', """        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        return _next(self, _text(key), _text(val))
""", """        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)
""", """        return _next(self, _text(key))
""", """@implementer(IUnicodeAware)
""", """def _text(value):
    return decode(value) if isinstance(value, bytes) else value


@implementer(IUnicodeAware)
""")
SU = """        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:
            for child in node.values():
                # non-Node values have no uuid and no children
                if INode.providedBy(child):
                    self.set_uuid_for(child, override, recursiv)
"""
r(B + 'common.py', SU, """        if IUUIDAware.providedBy(node) and (override or not node.uuid):
            node.uuid = self.uuid_factory()
        if not recursiv:
            return
        for child in filter(INode.providedBy, node.values()):
            self.set_uuid_for(child, override=override, recursiv=recursiv)
""")
r(B + 'common.py', SU, """        aware = IUUIDAware.providedBy(node)
        renew = aware and (override or not node.uuid)
        if renew:
            node.uuid = self.uuid_factory()
        if recursiv:
            children = [it for it in node.values() if INode.providedBy(it)]
            for child in children:
                self.set_uuid_for(child, override, True)
""")
r(B + 'common.py', """        copied = _next(self)
        self.set_uuid_for(copied, True, self.overwrite_recursiv_on_copy)
        return copied
""", """        recursiv = self.overwrite_recursiv_on_copy
        ret = _next(self)
        self.set_uuid_for(node=ret, override=True, recursiv=recursiv)
        return ret
""")
r(B + 'common.py', """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            child = self[name]
        except KeyError:
            msg = name
            raise AttributeError(msg)
        else:
            return child
""")

# -- mapping -----------------------------------------------------------------

r(B + 'mapping.py', """        return [x for x in self]
""", """        return list(iter(self))
""")
r(B + 'mapping.py', """        return [self[key] for key in self]
""", """        values = []
        for key in self:
            value = self[key]
            values.append(value)
        return values
""")
r(B + 'mapping.py', """        return [(key, self[key]) for key in self]
""", """        keys = [key for key in self]
        return list(zip(keys, [self[key] for key in keys]))
""")
r(B + 'mapping.py', """        return [(key, self[key]) for key in self]
""", """        return list(map(self._item, self))

    @default
    def _item(self, key):
        return key, self[key]
""")
r(B + 'mapping.py', """        return len(self.keys())
""", """        return sum(1 for _ in self)
""")
r(B + 'mapping.py', """        for key in self:
            yield self[key]
""", """        return (self[key] for key in self)
""")
r(B + 'mapping.py', """        for key in self:
            yield key, self[key]
""", """        return ((key, self[key]) for key in self)
""")
r(B + 'mapping.py', """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        found = True
        try:
            self[key]
        except KeyError:
            found = False
        return found
""")
r(B + 'mapping.py', """        for key in self.keys():
            del self[key]
""", """        for key in list(self.keys()):
            self.__delitem__(key)
""")
UPD = """        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
"""
r(B + 'mapping.py', UPD, """        for data in args + (kw,):
            pairs = iteritems(data) if hasattr(data, ITER_FUNC) else data
            for key, val in pairs:
                self[key] = val
""")
r(B + 'mapping.py', UPD, """        def assign(pairs):
            for key, val in pairs:
                self[key] = val

        for data in args:
            assign(iteritems(data) if hasattr(data, ITER_FUNC) else data)
        assign(iteritems(kw))
""")
r(B + 'mapping.py', UPD, """        sources = []
        if args:
            data = args[0]
            sources.append(
                iteritems(data) if hasattr(data, ITER_FUNC) else data)
        sources.append(iteritems(kw))
        for source in sources:
            for key, val in source:
                self[key] = val
""")
POP = """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
"""
r(B + 'mapping.py', POP, """        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
""")
r(B + 'mapping.py', POP, """        if default is UNSET:
            return self._pop(key)
        try:
            return self._pop(key)
        except KeyError:
            return default

    @default
    def _pop(self, key):
        val = self[key]
        del self[key]
        return val
""".replace('    @default\n    def _pop', '    def _pop').replace(
    'self._pop(key)', '_take(self, key)').split('\n    def _pop')[0] + '\n',
  """@implementer(IExtendedWriteMapping)
""", """def _take(mapping, key):
    val = mapping[key]
    del mapping[key]
    return val


@implementer(IExtendedWriteMapping)
""")
PI = """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
"""
r(B + 'mapping.py', PI, """        keys = self.keys()
        if len(keys) == 0:
            raise KeyError('popitem(): mapping is empty')
        key = keys[-1]
        val = self[key]
        del self[key]
        return (key, val)
""")
r(B + 'mapping.py', PI, """        try:
            key = list(self.keys())[-1]
        except IndexError:
            raise KeyError('popitem(): mapping is empty')
        val = self[key]
        del self[key]
        return key, val
""")
r(B + 'mapping.py', PI, """        key = next(reversed(self.keys()), UNSET)
        if key is UNSET:
            raise KeyError('popitem(): mapping is empty')
        item = key, self[key]
        del self[key]
        return item
""")

# -- nodify, nodespace, order ------------------------------------------------

r(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = []
        node = self
        while node is not None:
            path.insert(0, node.name)
            node = getattr(node, '__parent__', None)
        return path
""")
r(B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        lineage = list(LocationIterator(self))
        return [node.name for node in reversed(lineage)]
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        *_, root = LocationIterator(self)
        return root
""")
r(B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        node = self
        parent = getattr(node, '__parent__', None)
        while parent is not None:
            node, parent = parent, getattr(parent, '__parent__', None)
        return node
""")
ACQ = """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
"""
r(B + 'nodify.py', ACQ, """        def matches(node):
            if IInterface.providedBy(interface) \\
                    and interface.providedBy(node):
                return True
            return isinstance(node, interface)

        node = self.parent
        while node is not None and not matches(node):
            node = node.parent
        return node
""")
r(B + 'nodify.py', ACQ, """        node = self.parent
        while True:
            if node is None:
                return None
            if IInterface.providedBy(interface):
                if interface.providedBy(node):
                    return node
            if isinstance(node, interface):
                return node
            node = node.parent
""")
r(B + 'nodify.py', """        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        return filter(interface.providedBy, self.itervalues())
""")
r(B + 'nodify.py', """        return [val for val in self.filtereditervalues(interface)]
""", """        return [
            val for val in self.itervalues() if interface.providedBy(val)
        ]
""")
TREE = """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
"""
r(B + 'nodify.py', TREE, """        lines = ['{}{}\\n'.format(indent * prefix, self.noderepr)]
        items = list(self.items())
        if not IOrdered.providedBy(self):
            items.sort(key=lambda item: UNICODE_TYPE(item[0]))
        child_indent = indent + 2
        for key, value in items:
            if INode.providedBy(value):
                line = value.treerepr(indent=child_indent, prefix=prefix)
            else:
                line = '{}{}: {!r}\\n'.format(
                    child_indent * prefix, key, value)
            lines.append(line)
        return ''.join(lines)
""")
r(B + 'nodify.py', TREE, """        def line(level, text):
            return '{}{}\\n'.format(level * prefix, text)

        def item_key(item):
            return UNICODE_TYPE(item[0])

        res = line(indent, self.noderepr)
        items = self.items()
        if not IOrdered.providedBy(self):
            items = sorted(items, key=item_key)
        for key, value in items:
            if not INode.providedBy(value):
                res += line(indent + 2, '{}: {}'.format(key, repr(value)))
                continue
            res += value.treerepr(indent=indent + 2, prefix=prefix)
        return res
""")
r(B + 'nodify.py', """        node = self[key]
        del self[key]
        return node
""", """        detached = self[key]
        self.__delitem__(key)
        return detached
""")
r(B + 'nodify.py', """        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
""", """        name, parent = self.__name__, self.__parent__
        copied = _next(self)
        for attr, value in (('__name__', name), ('__parent__', parent)):
            setattr(copied, attr, value)
        return copied
""")
r(B + 'nodify.py', """        class_name = self.__class__.__name__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )
""", """        return '<%s object \\'%s\\' at %s>' % (
            self.__class__.__name__,
            _printable_name(self.name),
            hex(id(self))[:-1]
        )
""", """        class_name = self.__class__
        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return str(class_name) + ': ' + name[name.find(':') + 1:]
""", """        name = _printable_name(self.name)
        return '{}: {}'.format(self.__class__, name[name.find(':') + 1:])
""", """@implementer(IDefaultInit)
""", """def _printable_name(name):
    if IS_PY2 and isinstance(name, unicode):
        return name.encode('ascii', 'replace')
    return str(name)


@implementer(IDefaultInit)
""")
NSG = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
"""
NSS = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            val.__name__ = key
            val.__parent__ = self
            self.nodespaces[key] = val
            # index checks below must not happen for other nodespace.
            return
        _next(self, key, val)
"""
NSD = """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            del self.nodespaces[key]
            return
        _next(self, key)
"""
NSC = """@implementer(INodespaces)
class Nodespaces(Behavior):
"""
r(B + 'nodespace.py', NSG, """        if not _is_reserved(key):
            return _next(self, key)
        return self.nodespaces[key]
""", NSS, """        if not _is_reserved(key):
            _next(self, key, val)
            return
        val.__parent__ = self
        val.__name__ = key
        self.nodespaces[key] = val
""", NSD, """        if not _is_reserved(key):
            return _next(self, key)
        self.nodespaces.pop(key) if False else self.nodespaces.__delitem__(key)
""".replace("self.nodespaces.pop(key) if False else ", ''), NSC,
  """def _is_reserved(key):
    if not isinstance(key, STR_TYPE):
        return False
    return key.startswith('__') and key.endswith('__')


""" + NSC)
r(B + 'nodespace.py', NSC, """def _affixed(key, affix='__'):
    return key[:len(affix)] == affix and key[-len(affix):] == affix


""" + NSC, NSG, """        if isinstance(key, STR_TYPE) and _affixed(key):
            return self.nodespaces[key]
        return _next(self, key)
""")
r(B + 'nodespace.py', NSC, """def _target(node, key):
    if isinstance(key, STR_TYPE):
        if all((key.startswith('__'), key.endswith('__'))):
            return node.nodespaces
    return None


""" + NSC, NSG, """        target = _target(self, key)
        if target is not None:
            return target[key]
        return _next(self, key)
""", NSD, """        target = _target(self, key)
        if target is not None:
            del target[key]
        else:
            _next(self, key)
""")
r(B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        nodespaces = self._nodespaces
        if nodespaces is None:
            nodespaces = odict([('__children__', self)])
            self._nodespaces = nodespaces
        return nodespaces
""")
OF = """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
"""
OL = """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
"""
OB = """        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
"""
OA = """        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
"""
r(B + 'order.py', OB, """        self._insert(self.storage.insertbefore, newnode, refnode)
""", OA, """        self._insert(self.storage.insertafter, newnode, refnode)

    @override
    def _insert(self, insert, newnode, refnode):
        self._validateinsertion(newnode)
        try:
            insert(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._setinserted(newnode)
""")
r(B + 'order.py', OB, """        _insert(self, 'insertbefore', newnode, refnode)
""", OA, """        _insert(self, 'insertafter', newnode, refnode)
""", """@implementer(IOrder)
""", """def _insert(node, method, newnode, refnode):
    node._validateinsertion(newnode)
    insert = getattr(node.storage, method)
    try:
        insert(refnode.name, newnode.name, newnode)
    except KeyError:
        raise ValueError('Given reference node not child of self.')
    node._setinserted(newnode)


@implementer(IOrder)
""")
r(B + 'order.py', OF, """        if self._insertsole(newnode):
            return
        keys = self.keys()
        self.insertbefore(newnode, self[keys[0]])
""", OL, """        if self._insertsole(newnode):
            return
        keys = self.keys()
        self.insertafter(newnode, self[keys[-1]])

    @override
    def _insertsole(self, newnode):
        if self.keys():
            return False
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
        return True
""")
r(B + 'order.py', OF, """        keys = self.keys()
        if keys:
            self.insertbefore(newnode, self[keys[0]])
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""", OL, """        keys = self.keys()
        if keys:
            self.insertafter(newnode, self[keys[-1]])
        else:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
""")
r(B + 'order.py', OF, """        for key in self:
            return self.insertbefore(newnode, self[key])
        self._validateinsertion(newnode)
        self[newnode.name] = newnode
""")
VI = """        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
        # case if Reference behavior is mixed in
        # XXX: move out of here
        if hasattr(self, 'node'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        # inserting a key twice would break the linked list of the storage
        if node.name in self.storage:
            raise KeyError('Given node name already contained in node.')
"""
r(B + 'order.py', VI, """        name = node.name
        if name is None:
            raise ValueError('Given node has no __name__ set.')
        find = getattr(self, 'node', None)
        if find is not None and find(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        if name in self.storage:
            raise KeyError('Given node name already contained in node.')
""")
r(B + 'order.py', """        try:
            self[newnode.name] = newnode
        except Exception:
            # refused by a behavior, e.g. because of duplicate uuids
            del self.storage[newnode.name]
            raise
""", """        name = newnode.name
        accepted = False
        try:
            self[name] = newnode
            accepted = True
        finally:
            if not accepted:
                # refused by a behavior, e.g. because of duplicate uuids
                self.storage.pop(name)
""")
r(B + 'order.py', """        self.storage.swap(node_a.name, node_b.name)
""", """        names = [node.name for node in (node_a, node_b)]
        self.storage.swap(*names)
""")

# -- reference, lifecycle, storage, locking ----------------------------------

RS = """        if INode.providedBy(val):
            keys = set(self._index.keys())
            if keys.intersection(val._index.keys()):
                raise ValueError('Node with uuid already exists')
            val_index = val._index
            self._index.update(val._index)
            # nodes contained in val must share the index of this tree as well
            for node in list(val._index.values()):
                node._index = self._index
            val._index = self._index
            try:
                _next(self, key, val)
            except Exception:
                for iuuid, node in val_index.items():
                    del self._index[iuuid]
                    node._index = val_index
                val._index = val_index
                raise
            return
        _next(self, key, val)
"""
r(B + 'reference.py', RS, """        if not INode.providedBy(val):
            _next(self, key, val)
            return
        index = self._index
        val_index = val._index
        if not set(index).isdisjoint(val_index):
            raise ValueError('Node with uuid already exists')
        index.update(val_index)
        # nodes contained in val must share the index of this tree as well
        _use_index(val, val_index, index)
        try:
            _next(self, key, val)
        except Exception:
            for iuuid in val_index:
                del index[iuuid]
            _use_index(val, val_index, val_index)
            raise
""", """@implementer(IReference)
""", """def _use_index(root, nodes, index):
    for node in nodes.values():
        node._index = index
    root._index = index


@implementer(IReference)
""")
r(B + 'reference.py', RS, """        if not INode.providedBy(val):
            return _next(self, key, val)
        if any(iuuid in self._index for iuuid in val._index):
            raise ValueError('Node with uuid already exists')
        with _merged(self, val):
            _next(self, key, val)
""", """@implementer(IReference)
""", """@contextmanager
def _merged(node, val):
    val_index = val._index
    node._index.update(val_index)
    # nodes contained in val must share the index of this tree as well
    for child in list(val_index.values()):
        child._index = node._index
    val._index = node._index
    try:
        yield
    except Exception:
        for iuuid, child in val_index.items():
            del node._index[iuuid]
            child._index = val_index
        val._index = val_index
        raise


@implementer(IReference)
""", 'from node.interfaces import INode\n',
  'from contextlib import contextmanager\nfrom node.interfaces import INode\n')
r(B + 'reference.py', RS, """        if INode.providedBy(val):
            self._set_node(_next, key, val)
        else:
            _next(self, key, val)

    @default
    def _set_node(self, _next, key, val):
        own, other = self._index, val._index
        if own.keys() & other.keys():
            raise ValueError('Node with uuid already exists')
        for iuuid, node in list(other.items()):
            own[iuuid] = node
            node._index = own
        val._index = own
        try:
            _next(self, key, val)
        except Exception:
            for iuuid, node in list(other.items()):
                own.pop(iuuid)
                node._index = other
            val._index = other
            raise
""")
RD = """        todel = self[key]
        removed = dict()
        if hasattr(todel, '_to_delete'):
            for iuuid in todel._to_delete():
                removed[iuuid] = self._index[iuuid]
                del self._index[iuuid]
        try:
            _next(self, key)
        except Exception:
            self._index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
"""
r(B + 'reference.py', RD, """        todel = self[key]
        index = self._index
        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
        removed = {iuuid: index.pop(iuuid) for iuuid in iuuids}
        try:
            _next(self, key)
        except Exception:
            index.update(removed)
            raise
        # the deleted nodes are a tree on their own now
        for node in removed.values():
            node._index = removed
""")
r(B + 'reference.py', RD, """        removed = self._take_from_index(self[key])
        try:
            _next(self, key)
        except Exception:
            for iuuid, node in removed.items():
                self._index[iuuid] = node
            raise
        for iuuid in removed:
            removed[iuuid]._index = removed

    @default
    def _take_from_index(self, todel):
        taken = dict()
        if not hasattr(todel, '_to_delete'):
            return taken
        for iuuid in todel._to_delete():
            taken[iuuid] = self._index.pop(iuuid)
        return taken
""")
r(B + 'reference.py', """        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        index = self._index
        iuuid = _int_uuid(uuid)
        if index.get(iuuid, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        index.pop(_int_uuid(self._uuid), None)
        index[iuuid] = self
        self._uuid = uuid
""", """@implementer(IReference)
""", """def _int_uuid(uuid):
    if uuid is None:
        return None
    return int(uuid)


@implementer(IReference)
""")
r(B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for child in self.values():
            if hasattr(child, '_to_delete'):
                todel.extend(child._to_delete())
        return todel
""")
r(B + 'reference.py', """        for node in self.values():
            try:
                uuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                continue
            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
""", """        index = self._index
        for node in self.values():
            try:
                iuuid = int(node.uuid)
            except AttributeError:
                # non-Node values are a dead end, no magic for them
                pass
            else:
                node._index = index
                index[iuuid] = node
                node._index_nodes()
""")
r(B + 'reference.py', """        if hasattr(node, '_index_nodes'):
            node._index = {int(node.uuid): node}
            node._index_nodes()
        return node
""", """        if not hasattr(node, '_index_nodes'):
            return node
        index = dict()
        index[int(node.uuid)] = node
        node._index = index
        node._index_nodes()
        return node
""")
NOTI = """        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
"""
NOTD = """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
"""
NODT = """        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
"""
LC = """@implementer(ILifecycle)
"""
r(B + 'lifecycle.py', LC, """def _notify(node, event, ob, **kw):
    if not node._notify_suppress:
        factory = node.events[event]
        objectEventNotify(factory(ob, **kw))


""" + LC, NOTI, """        _next(self, key, val)
        _notify(self, 'added', val, newParent=self, newName=key)
""", NOTD, """        delnode = self[key]
        _next(self, key)
        _notify(self, 'removed', delnode, oldParent=self, oldName=key)
""")
r(B + 'lifecycle.py', LC, """@contextmanager
def _suppressed(node):
    previous = node._notify_suppress
    node._notify_suppress = True
    try:
        yield
    finally:
        node._notify_suppress = previous


""" + LC, NODT, """        with _suppressed(self):
            node = _next(self, key)
        event = self.events['detached'](node, oldParent=self, oldName=key)
        objectEventNotify(event)
        return node
""", 'from node.events import NodeAddedEvent\n',
  'from contextlib import contextmanager\n'
  'from node.events import NodeAddedEvent\n')
r(B + 'lifecycle.py', NOTI, """        _next(self, key, val)
        if not self._notify_suppress:
            kw = dict(newParent=self, newName=key)
            objectEventNotify(self.events['added'](val, **kw))
""", NOTD, """        delnode = self[key]
        _next(self, key)
        if not self._notify_suppress:
            kw = {'oldParent': self, 'oldName': key}
            objectEventNotify(self.events['removed'](delnode, **kw))
""")
r(B + 'lifecycle.py', """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key, val)
        _notify_modified(self.__parent__)
""", """        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key)
        _notify_modified(self.__parent__)
""", """@implementer(IAttributesLifecycle)
""", """def _notify_modified(node):
    if node._notify_suppress:
        return
    event = node.events['modified'](node)
    objectEventNotify(event)


@implementer(IAttributesLifecycle)
""")
r(B + 'storage.py', """        return self.storage.__iter__()
""", """        for key in self.storage:
            yield key
""")
r(B + 'storage.py', """        return self.storage[key]

""", """        storage = self.storage
        value = storage[key]
        return value

""")
r(B + 'storage.py', """@implementer(IOrdered)
class OdictStorage(Storage):

    @default
    @instance_property
    def storage(self):
        return odict()
""", """@implementer(IOrdered)
class OdictStorage(Storage):
    storage = default(instance_property(_make_ordered))
""", """class DictStorage(Storage):
""", """def _make_ordered(node):
    return odict()


_make_ordered.__name__ = 'storage'


class DictStorage(Storage):
""")
r('locking.py', """        root = node.root
        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = _tree_lock(node.root)
""", """class TreeLock(object):
""", """def _tree_lock(root):
    with _creation_lock:
        lock = getattr(root, '_treelock', None)
        if lock is None:
            lock = RLock()
            root._treelock = lock
        return lock


class TreeLock(object):
""")
r('locking.py', """        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        lock = getattr(root, '_treelock', None)
        if lock is None:
            _creation_lock.acquire()
            try:
                lock = getattr(root, '_treelock', None)
                if lock is None:
                    lock = root._treelock = RLock()
            finally:
                _creation_lock.release()
        self.lock = lock
""")
r('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
""")
r('locking.py', """    def _locktree_decorator(self, *args, **kwargs):
        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
    return _locktree_decorator""", """    @wraps(fn)
    def _locktree_decorator(self, *args, **kwargs):
        with TreeLock(self):
            result = fn(self, *args, **kwargs)
        return result
    return _locktree_decorator""", 'from threading import RLock\n',
  'from functools import wraps\nfrom threading import RLock\n')

# -- events ------------------------------------------------------------------

HOOK = """    if '__events__' not in cls.__dict__:
        # inherit events, but never share the list with the base class
        cls.__events__ = list(getattr(cls, '__events__', ()))
    events = cls.__events__
    for attr, val in dct.items():
        if isinstance(val, EventAttribute):
            if attr not in events:
                events.append(attr)
            val.name = attr
"""
r(B + 'events.py', HOOK, """    # inherit events, but never share the list with the base class
    if '__events__' not in vars(cls):
        cls.__events__ = list(getattr(cls, '__events__', ()))
    for attr, val in dct.items():
        if not isinstance(val, EventAttribute):
            continue
        _register_attribute(cls, attr, val)


def _register_attribute(cls, name, attribute):
    attribute.name = name
    if name not in cls.__events__:
        cls.__events__.append(name)
""")
r(B + 'events.py', HOOK, """    events = cls.__dict__.get('__events__')
    if events is None:
        # inherit events, but never share the list with the base class
        events = [event for event in getattr(cls, '__events__', [])]
        cls.__events__ = events
    attributes = {
        attr: val for attr, val in dct.items()
        if isinstance(val, EventAttribute)
    }
    for attr, val in attributes.items():
        val.name = attr
    events.extend(attr for attr in attributes if attr not in events)
""")
r(B + 'events.py', """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events

    def __enter__(self):
        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress

    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        multiple = type(events) in (list, tuple)
        self.events = events if multiple else [events]

    def __enter__(self):
        data = self.data
        data.suppress = data.suppress + 1
        data.events.extend(self.events)
        return data.suppress

    def __exit__(self, type_, value, traceback):
        data = self.data
        for event in self.events:
            data.events.remove(event)
        data.suppress = data.suppress - 1
""")
r(B + 'events.py', """    def __enter__(self):
        self.data.suppress += 1
        for event in self.events:
            self.data.events.append(event)
        return self.data.suppress

    def __exit__(self, type_, value, traceback):
        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """    def __enter__(self):
        for event in self.events:
            self.data.events.append(event)
        self.data.suppress += 1
        level = self.data.suppress
        return level

    def __exit__(self, type_, value, traceback):
        self._leave(self.data)
        return False

    def _leave(self, data):
        for event in reversed(self.events):
            data.events.remove(event)
        data.suppress -= 1
""")
r(B + 'events.py', """    _attribute_subscribers.subscribers = subscribers
    yield
""", """    data = _attribute_subscribers
    data.subscribers = subscribers
    yield data
""")
r(B + 'events.py', """        if obj is None:
            return self.default
        return getattr(obj, self.storage).get(self.name, self.default)
""", """        if obj is None:
            return self.default
        return self._value(getattr(obj, self.storage))

    def _value(self, storage):
        return storage.get(self.name, self.default)
""", """        old_value = storage.get(self.name, self.default)
""", """        old_value = self._value(storage)
""")
ESET = """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
"""
EDEL = """        del getattr(obj, self.storage)[self.name]
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, UNSET)
"""
r(B + 'events.py', ESET, """        storage, name = getattr(obj, self.storage), self.name
        previous = storage.get(name, self.default)
        storage[name] = value
        changed = value != previous
        if not (self.always_dispatch or changed):
            return
        self._dispatch(obj, value)
""", EDEL, """        storage = getattr(obj, self.storage)
        del storage[self.name]
        self._dispatch(obj, UNSET)

    def _dispatch(self, obj, value):
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
""")
r(B + 'events.py', ESET, """        storage = getattr(obj, self.storage)
        dispatch = self.always_dispatch
        if not dispatch:
            dispatch = storage.get(self.name, self.default) != value
        storage[self.name] = value
        if dispatch:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""".replace("storage.get(self.name, self.default) != value",
            "value != storage.get(self.name, self.default)"))
r(B + 'events.py', """        if event not in self.__events__:
            self.__events__.append(event)
""", """        events = self.__events__
        if event in events:
            return
        events.append(event)
""")
BIND = """        for event, subscriber in kw.items():
            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
"""
r(B + 'events.py', BIND, """        for event, subscriber in kw.items():
            _check_event(self, event)
            subscribers = self.__subscribers__.get(event)
            if subscribers is None:
                subscribers = self.__subscribers__[event] = list()
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """@implementer(IEvents)
""", """def _check_event(ob, event):
    known = event in ob.__events__ or event in type(ob).__events__
    if not known:
        raise UnknownEvent(event)


@implementer(IEvents)
""")
r(B + 'events.py', BIND, """        for event in kw:
            if not any((
                event in self.__events__,
                event in self.__class__.__events__
            )):
                raise UnknownEvent(event)
            bound = self.__subscribers__.setdefault(event, [])
            if kw[event] in bound:
                continue
            bound.append(kw[event])
""")
UNB = """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
"""
r(B + 'events.py', UNB, """        if subscriber is None:
            if event is None:
                self.__subscribers__ = dict()
            else:
                self.__subscribers__.pop(event, None)
            return
        if event is None:
            affected = list(self.__subscribers__.values())
        else:
            affected = [self.__subscribers__.get(event, list())]
        for subscribers in affected:
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""")
r(B + 'events.py', UNB, """        if event is None and subscriber is None:
            self.__subscribers__.clear()
            return
        if subscriber is None:
            if event in self.__subscribers__:
                self.__subscribers__.pop(event)
            return
        events = self.__subscribers__ if event is None else (event,)
        for name in events:
            _remove_subscriber(self.__subscribers__.get(name), subscriber)
""", """@implementer(IEvents)
""", """def _remove_subscriber(subscribers, subscriber):
    try:
        subscribers.remove(subscriber)
    except (AttributeError, ValueError):
        pass


@implementer(IEvents)
""")
DISP = """        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
"""
r(B + 'events.py', DISP, """        attribute_subscribers = _take_attribute_subscribers()
        if _is_suppressed(event):
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in tuple(self.__subscribers__.get(event, ())):
            subscriber(*args, **kw)
""", """@implementer(IEvents)
""", """def _take_attribute_subscribers():
    taken = _attribute_subscribers.subscribers
    _attribute_subscribers.subscribers = []
    return taken


def _is_suppressed(event):
    data = suppress_events.data
    if data.suppress <= 0:
        return False
    return ALL_EVENTS in data.events or event in data.events


@implementer(IEvents)
""")
r(B + 'events.py', DISP, """        data = _attribute_subscribers
        attribute_subscribers, data.subscribers = data.subscribers, list()
        suppressed = suppress_events.data.events
        if suppress_events.data.suppress and any(
                name in suppressed for name in (ALL_EVENTS, event)):
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        if event not in self.__subscribers__:
            return
        # subscribers may be bound or unbound by the subscribers called
        for subscriber in self.__subscribers__[event][:]:
            subscriber(*args, **kw)
""")
r(B + 'events.py', """        inst = super(type, cls).__new__(cls)
        inst.__events__ = list()
        inst.__subscribers__ = dict()
        return inst
""", """        inst = super(type, cls).__new__(cls)
        for name, factory in (
            ('__events__', list),
            ('__subscribers__', dict)
        ):
            setattr(inst, name, factory())
        return inst
""")

# -- fallback ----------------------------------------------------------------

FGET = """        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
"""
r(B + 'fallback.py', FGET, """        try:
            return _next(self, key)
        except KeyError:
            value = _lookup(self, key)
            if value is _marker:
                raise
            return value
""", """@implementer(IFallback)
""", """def _lookup(node, key):
    with fallback_processing() as count:
        if count > 0:
            return _marker
        return _to_root(node, path=node.path + [key], visited=set())


@implementer(IFallback)
""")
r(B + 'fallback.py', FGET, """        try:
            value = _next(self, key)
        except KeyError:
            processing = fallback_processing()
            count = processing.__enter__()
            try:
                value = _marker
                if count == 0:
                    path = self.path + [key]
                    value = _to_root(self, path=path, visited=set())
            finally:
                processing.__exit__(None, None, None)
            if value is _marker:
                raise
        return value
""")
r(B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    fallback = parent.get(parent.fallback_key, _marker)
    if fallback is _marker:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    parent = node.__parent__
    if parent is None:
        return _marker
    key = getattr(parent, 'fallback_key', _marker)
    if key and node not in visited:
        visited.add(node)
        fallback = parent.get(key, _marker)
        if fallback is not _marker:
            return _to_leaf(fallback, path, visited)
    return _to_root(parent, path, visited)
""")
r(B + 'fallback.py', """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    rest = path[len(node.path):]
    for name in rest:
        child = node.get(name, _marker)
        if child is _marker:
            return _to_root(node, path=path, visited=visited)
        node = child
    return node
""")
r(B + 'fallback.py', """        self.data.processing += 1
        return self.data.processing

    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
""", """        return self._shift(1)

    def __exit__(self, type, value, traceback):
        self._shift(-1)

    def _shift(self, offset):
        self.data.processing = self.data.processing + offset
        return self.data.processing
""")

# -- utils -------------------------------------------------------------------

r('utils.py', """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    current = obj
    while True:
        if current is None:
            return
        yield current
        current = getattr(current, '__parent__', None)
""")
r('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        for candidate, key in self.items():
            if candidate == value:
                return key
        raise KeyError(value)
""")
r('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        context = self.context
        keys = [key for key in context if context[key] == value]
        if not keys:
            raise KeyError(value)
        return keys[0]
""")
r('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(self.context[key] == value for key in self.context)
""")
r('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        try:
            self[value]
        except KeyError:
            return False
        else:
            return True
""")
r('utils.py', """    def keys(self):
        return [val for val in self]

    def __iter__(self):
        for key in self.context:
            yield self.context[key]

    def values(self):
        return [key for key in self.context]

    def items(self):
        return [(v, k) for k, v in self.context.items()]
""", """    def keys(self):
        return list(self)

    def __iter__(self):
        context = self.context
        return (context[key] for key in context)

    def values(self):
        return list(iter(self.context))

    def items(self):
        items = []
        for key, value in self.context.items():
            items.append((value, key))
        return items
""")
r('utils.py', """        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __getitem__(self, name):
        context = object.__getattribute__(self, 'context')
        return context[name]

    def __setitem__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __delitem__(self, name):
        context = object.__getattribute__(self, 'context')
        del context[name]
""", """        try:
            return _context(self)[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        _context(self)[name] = value

    def __getitem__(self, name):
        return _context(self)[name]

    def __setitem__(self, name, value):
        _context(self)[name] = value

    def __delitem__(self, name):
        del _context(self)[name]


def _context(access):
    return object.__getattribute__(access, 'context')
""")
r('utils.py', """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value

""", """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self[name] = value

""")
SENC = """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
        elif isinstance(arg, UNICODE_TYPE):
            arg = arg.encode(self._encoding)
        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
"""
SDEC = """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
        elif INode.providedBy(arg):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        return arg
"""
r('utils.py', SENC, """        if isinstance(arg, (list, tuple)):
            return arg.__class__(map(self.encode, arg))
        if isinstance(arg, dict) or (
                not isinstance(arg, (bytes, UNICODE_TYPE)) and
                INode.providedBy(arg)):
            return self._convert_items(arg, self.encode)
        if isinstance(arg, bytes):
            decoded = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if isinstance(decoded, bytes):
                return decoded
            return self.encode(decoded)
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        return arg

    def _convert_items(self, mapping, convert):
        return dict(convert(item) for item in iteritems(mapping))
""")
r('utils.py', SDEC, """        if isinstance(arg, (list, tuple)):
            converted = [self.decode(it) for it in arg]
            return arg.__class__(converted)
        if isinstance(arg, bytes):
            return self._decode_bytes(arg)
        if isinstance(arg, dict) or INode.providedBy(arg):
            ret = dict()
            for key, value in iteritems(arg):
                ret[self.decode(key)] = self.decode(value)
            return ret
        return arg

    def _decode_bytes(self, data):
        try:
            return data.decode(self._encoding)
        except UnicodeDecodeError:
            # in soft mode we leave the string, otherwise we raise the
            # exception
            if self._soft:
                return data
            raise
""")
r('utils.py', """        attribute_name = '_{}'.format(func.__name__)
        # do not use hasattr/getattr to avoid problems when overwriting
        # __getattr__ on a class which also uses instance_property
        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        # do not use hasattr/getattr to avoid problems when overwriting
        # __getattr__ on a class which also uses instance_property
        lookup = object.__getattribute__
        try:
            return lookup(self, attribute_name)
        except AttributeError:
            pass
        setattr(self, attribute_name, func(self))
        return lookup(self, attribute_name)
""", """    def wrapper(self):
""", """    attribute_name = '_' + func.__name__

    def wrapper(self):
""")
r('utils.py', """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    return _descend(root, _path_keys(path))


def _path_keys(path):
    if not isinstance(path, STR_TYPE):
        return path or []
    path = path.strip('/')
    if not path:
        return []
    return path.split('/')


def _descend(node, keys):
    for key in keys:
        node = node[key]
    return node
""")
r('utils.py', """        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
""", """        f_result = func(*args, **kws)
        log(u'{}: --> {}', UNICODE_TYPE(f_result))
        return f_result
""", """        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
""", """        log(u'{}: args={}, kws={}', UNICODE_TYPE(args), UNICODE_TYPE(kws))
""", """    def wrapped(*args, **kws):
""", """    def log(msg, *values):
        logger.debug(msg.format(func_name(func), *values))

    def wrapped(*args, **kws):
""")

# -- serializer --------------------------------------------------------------

r('serializer.py', """    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    if not simple_mode:
        return json.dumps(ob, cls=NodeEncoder)

    def encoder_factory(**kw):
        kw.update(simple_mode=True, include_class=include_class)
        return NodeEncoder(**kw)
    return json.dumps(ob, cls=encoder_factory)
""")
r('serializer.py', """    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    options = dict(simple_mode=True, include_class=include_class) \\
        if simple_mode else dict()
    return json.dumps(ob, cls=NodeEncoder, **options)
""")
r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
""", """            for callback in _matching(serializer.registry, ob):
                callback(self, ob, data)
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
""", """            for callback in _matching(deserializer.registry, node):
                callback(self, node, node_data)
""", """class NodeEncoder(json.JSONEncoder):
""", """def _matching(registry, ob):
    for cls, callback in registry.items():
        if issubclass(cls, Interface) and cls.providedBy(ob):
            yield callback
        elif isinstance(ob, cls):
            yield callback


class NodeEncoder(json.JSONEncoder):
""")
r('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
""", """            for cls, callback in serializer.registry.items():
                if _applies(cls, ob):
                    callback(self, ob, data)
""", """            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
""", """            for cls, callback in deserializer.registry.items():
                if _applies(cls, node):
                    callback(self, node, node_data)
""", """class NodeEncoder(json.JSONEncoder):
""", """def _applies(cls, ob):
    return (issubclass(cls, Interface) and cls.providedBy(ob)) \\
        or isinstance(ob, cls)


class NodeEncoder(json.JSONEncoder):
""")
r('serializer.py', """        if isclass(ob) or isfunction(ob):
            return '.'.join(
                [ob.__module__, ob.__name__ if IS_PY2 else ob.__qualname__]
            )
        elif ismethod(ob):
            if IS_PY2:
                cls = ob.im_class
            else:
                # bound method, unbound methods are functions in python 3
                cls = ob.__self__ if isclass(ob.__self__) else type(ob.__self__)
            return '.'.join([self.dotted_name(cls), ob.__name__])
        else:
            return self.dotted_name(ob.__class__)
""", """        if isclass(ob) or isfunction(ob):
            name = ob.__name__ if IS_PY2 else ob.__qualname__
            return '{}.{}'.format(ob.__module__, name)
        if not ismethod(ob):
            return self.dotted_name(ob.__class__)
        if IS_PY2:
            cls = ob.im_class
        elif isclass(ob.__self__):
            cls = ob.__self__
        else:
            # bound method, unbound methods are functions in python 3
            cls = type(ob.__self__)
        return self.dotted_name(cls) + '.' + ob.__name__
""")
r('serializer.py', """        # serialize UNSET
        if ob is UNSET:
            return '<UNSET>'
        # serialize UUID
        if isinstance(ob, uuid.UUID):
            return '<UUID>:{}'.format(ob)
        # serialize Node
        if INode.providedBy(ob):
            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """        # serialize UNSET
        if ob is UNSET:
            return UNSET_MARK
        # serialize UUID
        if isinstance(ob, uuid.UUID):
            return UUID_MARK + str(ob)
        # serialize Node
        if INode.providedBy(ob):
            data = self._node_data(ob)
            return data if self.simple_mode else {'__node__': data}
""", """        # Serialize class, method or function
        if isclass(ob) or ismethod(ob) or isfunction(ob):
            if self.simple_mode:
                return self.dotted_name(ob)
            return {'__ob__': self.dotted_name(ob)}
        # no custom serialization required
        return ob
""", """        # Serialize class, method or function
        if isclass(ob) or ismethod(ob) or isfunction(ob):
            name = self.dotted_name(ob)
            return name if self.simple_mode else {'__ob__': name}
        # no custom serialization required
        return ob

    def _node_data(self, node):
        data = dict()
        if self.include_class or not self.simple_mode:
            data['class'] = self.dotted_name(node)
        data['name'] = node.name
        for cls, callback in serializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(node):
                callback(self, node, data)
            elif isinstance(node, cls):
                callback(self, node, data)
        return data
""", """            if data == '<UNSET>':
                return UNSET
            # decode UUID
            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """            if data == UNSET_MARK:
                return UNSET
            # decode UUID
            if data.startswith(UUID_MARK):
                return uuid.UUID(data[len(UUID_MARK):])
            return data
""", """class NodeEncoder(json.JSONEncoder):
""", """UNSET_MARK = '<UNSET>'
UUID_MARK = '<UUID>:'


class NodeEncoder(json.JSONEncoder):
""")
r('serializer.py', """        factory = self.resolve(data['class'])
        kw = self.decode(data.get('kw', dict()))
        name = data['name']
        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        factory = self.resolve(data['class'])
        kw = self.decode(data.get('kw', dict()))
        node = factory(**kw)
        if parent is None:
            node.__name__ = data['name']
        else:
            parent[data['name']] = node
        return node
""")
r('serializer.py', """        # decode data from list
        if isinstance(data, list):
            return [self.decode(it, parent=parent) for it in data]
        # return data as is if no dict
        if not isinstance(data, dict):
            return data
        # decode class, method or function
        if '__ob__' in data:
            return self.resolve(data['__ob__'])
        # decode node
        if '__node__' in data:
            node_data = data['__node__']
            node = self.node_factory(node_data, parent=parent)
            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
        # decode data from dict
        return dict([
            (key, self.decode(value, parent=parent))
            for key, value in data.items()
        ])
""", """        if isinstance(data, list):
            return list(map(lambda it: self.decode(it, parent), data))
        if isinstance(data, dict):
            return self._decode_dict(data, parent)
        return data

    def _decode_dict(self, data, parent):
        # decode class, method or function
        if '__ob__' in data:
            return self.resolve(data['__ob__'])
        # decode node
        if '__node__' in data:
            return self._decode_node(data['__node__'], parent)
        # decode data from dict
        return {
            key: self.decode(value, parent=parent)
            for key, value in data.items()
        }

    def _decode_node(self, node_data, parent):
        node = self.node_factory(node_data, parent=parent)
        for cls, callback in deserializer.registry.items():
            if issubclass(cls, Interface) and cls.providedBy(node):
                callback(self, node, node_data)
            elif isinstance(node, cls):
                callback(self, node, node_data)
        return node
""")
r('serializer.py', """        components = name.split('.')
        path = components[0]
        ob = __import__(path)
        for comp in components[1:]:
            path = '.'.join([path, comp])
            try:
                ob = getattr(ob, comp)
            except AttributeError:
                # module not imported yet
                __import__(path)
                ob = getattr(ob, comp)
        return ob
""", """        path, _, rest = name.partition('.')
        ob = __import__(path)
        for comp in rest.split('.') if rest else []:
            path = path + '.' + comp
            if not hasattr(ob, comp):
                # module not imported yet
                __import__(path)
            ob = getattr(ob, comp)
        return ob
""")
r('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for child in node.values()]
    if not children:
        return
    data['children'] = children
""", """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or ():
        decoder.decode(child, parent=node)
""", """    attrs = data.setdefault('attrs', dict())
    for name, child in node.attrs.items():
        attrs[name] = encoder.default(child)
""", """    attrs = data.setdefault('attrs', {})
    attrs.update(
        (name, encoder.default(value)) for name, value in node.attrs.items()
    )
""", """    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    attrs = node.attrs
    for attr, value in data.get('attrs', {}).items():
        attrs[attr] = decoder.decode(value)
""")
