"""Eleventh batch: locks which move, empty values, keys at the border."""

b('C27', LOCKING, """    def release(self):
        self.lock.release()
""", """    def release(self):
        getattr(self.node.root, '_treelock', self.lock).release()
""", """        root = node.root
""", """        self.node = node
        root = node.root
""")
b('C27', LOCKING, """        with _creation_lock:
            self.lock = getattr(root, '_treelock', None)
            if self.lock is None:
                self.lock = root._treelock = RLock()
""", """        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            with _creation_lock:
                self.lock = root._treelock = RLock()
""")
b('C27', LOCKING, """        lock = TreeLock(self)
        lock.acquire()
""", """        lock = getattr(self, '_lock', None)
        if lock is None:
            lock = self._lock = TreeLock(self)
        lock.acquire()
""")
b('C18', UTILS, """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
""", """        if not arg:
            return arg
        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
""")
b('C18', UTILS, """            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:""", """            for key in list(arg):
                if self.decode(key) != key:
                    arg = dict([self.decode(t) for t in iteritems(arg)])
                    break
            else:
                for key, val in iteritems(arg):
                    arg[key] = self.decode(val)
        elif isinstance(arg, bytes):
            try:""")
b('C12', NODESPACE, """          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self""", """          and key.endswith('__') and len(key) > 4:
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self""")
b('C12', NODESPACE, """            self._nodespaces['__children__'] = self
        return""", """        self._nodespaces.setdefault('__children__', self)
        return""")
b('C26', FALLBACK, """    visited.update({node})
""", """    visited.update({parent})
""")
b('C26', FALLBACK, "or node in visited:", "or parent.fallback_key in visited:", "visited.update({node})", "visited.update({parent.fallback_key})")
b('C26', FALLBACK, """                if count > 0:
                    raise
""", """                if count > 0 or self.__parent__ is None:
                    raise
""")
b('C24', EVENTS, """        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = events
""", """        if events is None:
            events = ALL_EVENTS
        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = iter(events)
""")
b('C22', EVENTS, """        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)
""", """        called = set()
        for subscriber in list(self.__subscribers__.get(event, list())):
            if id(getattr(subscriber, '__func__', subscriber)) in called:
                continue
            called.add(id(getattr(subscriber, '__func__', subscriber)))
            subscriber(*args, **kw)
""")
b('C22', EVENTS, """                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and""", """                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    break
        elif event is not None and""")
b('C23', EVENTS, "        if self.always_dispatch or value != old_value:", "        if self.always_dispatch or not (value == old_value or value is old_value and value):")
b('C23', EVENTS, "        old_value = storage.get(self.name, self.default)\n", "        old_value = self.__get__(obj) if self.name in storage else None\n")
b('C20', LIFECYCLE, """            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
""", """            node = _next(self, key)
        except KeyError:
            raise
        else:
            self._notify_suppress = notify_suppress
""")
b('C06', ORDER, """        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        refnode = self[keys[-1]]
        if refnode.name == newnode.name:
            return
        self.insertafter(newnode, refnode)
""")
b('C06', ORDER, """        except Exception:
            # refused""", """        except (KeyError, ValueError):
            # refused""")
b('C31', UTILS, """        except KeyError:
            raise AttributeError(name)
""", """        except KeyError:
            return object.__getattribute__(context, name)
""")
b('C32', UTILS, """        return [(v, k) for k, v in self.context.items()]""", """        return list({v: k for k, v in self.context.items()}.items())""")
b('C15', CACHE, """            if key in _keys(self):
                try:""", """            if key in _keys(self) and self[key] is not None:
                try:""")
b('C14', CACHE, """            cache[key] = _next(self, key)
        return cache[key]
""", """            cache[key] = value = _next(self, key)
            for cached in _keys(cache):
                if cached != key and cache[cached] is value:
                    del cache[cached]
        return cache[key]
""")
b('C16', ALIAS, """        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        try:
            return _next(self, unaliased_key)
        except LookupError:
            raise KeyError(key)
""")
b('C35', UTILS, """            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """            value = func(self)
            if value is not None:
                setattr(self, attribute_name, value)
            return value
""")
