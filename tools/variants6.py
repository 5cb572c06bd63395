"""More behaviour preserving rewrites: the contract testers, several files."""
REFACTORINGS6 = []


def R(rel, *edits):
    REFACTORINGS6.append((rel, tuple(
        (edits[i], edits[i + 1]) for i in range(0, len(edits), 2))))


TB = 'testing/base.py'
TF = 'testing/fullmapping.py'

# run with try/else
R(TB, """            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """            try:
                func()
            except Exception as e:
                writer.failed(e)
            else:
                writer.success()
""")
# one entry at a time
R(TB, """    def run(self):
        for name in self.iface_contract:
            func = getattr(self, 'test_%s' % name, None)
            if func is None:
                msg = '``{}`` does not provide ``test_{}``'.format(
                    self.__class__.__name__,
                    name
                )
                raise ContractError(msg)
            writer = self.writer(name)
            if self.direct_error:
                func()
                writer.success()
                continue
            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """    def run(self):
        for name in self.iface_contract:
            self._run_one(name, self._test_of(name))

    def _test_of(self, name):
        try:
            return getattr(self, 'test_' + name)
        except AttributeError:
            raise ContractError('``{}`` does not provide ``test_{}``'.format(
                self.__class__.__name__,
                name
            ))

    def _run_one(self, name, func):
        writer = self.writer(name)
        try:
            func()
            writer.success()
        except Exception as e:
            if self.direct_error:
                raise
            writer.failed(e)
""")
# results written directly
R(TB, """            writer = self.writer(name)
            if self.direct_error:
                func()
                writer.success()
                continue
            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """            if self.direct_error:
                func()
                self._results[name] = 'OK'
                continue
            try:
                func()
                self._results[name] = 'OK'
            except Exception as e:
                self._results[name] = 'failed: {!r}'.format(e)
""")
# combined by comprehension
R(TB, """        res = list()
        for key, val in sorted(self.writer().results.iteritems()):
            res.append('``{}``: {}'.format(key, val))
        return '\\n'.join(res)
""", """        return '\\n'.join(
            '``{}``: {}'.format(key, self._results[key])
            for key in sorted(self._results)
        )
""")
# origin by helper
R(TB, """        res = list()
        for name in sorted(self.iface_contract):
            line = name + ': '
            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
        return '\\n'.join(res)
""", """        return '\\n'.join([
            '{}: {}'.format(name, self._origin(name))
            for name in sorted(self.iface_contract)
        ])

    def _origin(self, name):
        for cls in self.class_.__mro__:
            if name in vars(cls):
                return cls.__name__
        return 'function not found on object'
""")
R(TB, """            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
""", """            line += next(
                (cls.__name__ for cls in self.class_.__mro__
                 if name in cls.__dict__),
                'function not found on object'
            )
            res.append(line)
""")
R(TB, """        self.context = context
        if self.context is None:
            self.context = class_()
        self._results = odict()
""", """        self.context = class_() if context is None else context
""")
# conditions the other way round
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        for key in keys:
            if key in expected:
                continue
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        if not all(key in expected for key in keys):
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        unexpected = [key for key in keys if key not in expected]
        if unexpected:
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        keys = [key for key in self.context]
        self._check_keys""", """        keys = list(self.context)
        self._check_keys""", """        keys = [key for key in self.context.iterkeys()]
""", """        keys = list(self.context.iterkeys())
""", """        values = [val for val in self.context.itervalues()]
""", """        values = list(self.context.itervalues())
""", """        items = [item for item in self.context.iteritems()]
""", """        items = list(self.context.iteritems())
""")
R(TF, """            if value is not self.context[key]:
                raise Exception('Expected {}, got {}'.format(
                    str(value),
                    str(self.context[key])
                ))
""", """            found = self.context[key]
            if found is not value:
                raise Exception(
                    'Expected {}, got {}'.format(str(value), str(found)))
""")
R(TF, """        for key, value in items:
            if key not in expected:
""", """        for item in items:
            key, value = item
            if key not in expected:
""")
R(TF, """        default = object()
        if self.context.get('foo', default) is default:
            raise Exception('Expected value, got default')
        value = self.context.get('xxx', default)
        if value is not default:
            raise Exception('Expected default, got %s' % str(value))
""", """        default = object()
        existing = self.context.get('foo', default)
        missing = self.context.get('xxx', default)
        if existing is default:
            raise Exception('Expected value, got default')
        if not (missing is default):
            raise Exception('Expected default, got %s' % str(missing))
""")
R(TF, """        if 'foo' not in self.context or 'bar' not in self.context:
            raise Exception(
                'Expected ``foo`` and ``bar`` return ``True`` '
                'by ``__contains__``'
            )
""", """        for key in ('foo', 'bar'):
            if key not in self.context:
                raise Exception(
                    'Expected ``foo`` and ``bar`` return ``True`` '
                    'by ``__contains__``'
                )
""")
R(TF, """        if not self.context.has_key('foo') \\
                or not self.context.has_key('bar'):
            raise Exception(
""", """        if not (self.context.has_key('foo') and self.context.has_key('bar')):
            raise Exception(
""")
R(TF, """        try:
            self.context.pop('xxx')
            raise Exception('Expected ``KeyError`` for inexistent item.')
        except KeyError:
            pass
""", """        try:
            self.context.pop('xxx')
        except KeyError:
            pass
        else:
            raise Exception('Expected ``KeyError`` for inexistent item.')
""")
R(TF, """        originlen = len(self.context)
        topop = self.context['foo']
        popped = self.context.pop('foo')
        afterlen = len(self.context)
        if topop is not popped:
            raise Exception('Popped item not same instance')
        if afterlen != originlen - 1:
            raise Exception('Invalid mapping length after ``pop``')
""", """        expected = self.context['foo']
        count = len(self.context) - 1
        if self.context.pop('foo') is not expected:
            raise Exception('Popped item not same instance')
        if len(self.context) != count:
            raise Exception('Invalid mapping length after ``pop``')
""")
R(TF, """            if copied.__name__ != self.context.__name__:
                raise Exception('__name__ of copied does not match')
            if copied.__parent__ is not self.context.__parent__:
                raise Exception('__parent__ of copied does not match')
            self.context.__name__ = old_name
            self.context.__parent__ = old_parent
""", """            if copied.__name__ != 'nametopcopy':
                raise Exception('__name__ of copied does not match')
            if copied.__parent__ is not PARENT_MARKER:
                raise Exception('__parent__ of copied does not match')
            self.context.__parent__ = old_parent
            self.context.__name__ = old_name
""")
R(TF, """        copied = self.context.copy()
        if copied is self.context:
            raise Exception('``copied`` is ``context``')
        if not copied['foo'] is self.context['foo']:
            raise Exception("``copied['foo']`` is not ``context['foo']``")
        if self.node_checks:
            if copied.__name__ != self.context.__name__:
                raise Exception('__name__ of copied does not match')
            if copied.__parent__ is not self.context.__parent__:
                raise Exception('__parent__ of copied does not match')
            self.context.__name__ = old_name
            self.context.__parent__ = old_parent
""", """        try:
            copied = self.context.copy()
            if copied is self.context:
                raise Exception('``copied`` is ``context``')
            if not copied['foo'] is self.context['foo']:
                raise Exception("``copied['foo']`` is not ``context['foo']``")
            if self.node_checks:
                if copied.__name__ != self.context.__name__:
                    raise Exception('__name__ of copied does not match')
                if copied.__parent__ is not self.context.__parent__:
                    raise Exception('__parent__ of copied does not match')
        finally:
            if self.node_checks:
                self.context.__name__ = old_name
                self.context.__parent__ = old_parent
""")
R(TF, """        self.context.popitem()
        try:
            self.context.popitem()
            raise Exception(
                'Expected ``KeyError`` when called on empty mapping'
            )
        except KeyError:
            pass
""", """        self.context.popitem()
        failed = False
        try:
            self.context.popitem()
        except KeyError:
            failed = True
        if not failed:
            raise Exception(
                'Expected ``KeyError`` when called on empty mapping'
            )
""")
R(TF, """        try:
            self.context['baz']
            self.context['blub']
        except KeyError:
            raise Exception(
                'KeyError, Expected ``baz`` and ``blub`` after update'
            )
        if baz is not self.context['baz']:
            raise Exception('Object at ``baz`` not expected one after update')
        if blub is not self.context['blub']:
            raise Exception('Object at ``blub`` not expected one after update')
""", """        for key, expected in (('baz', baz), ('blub', blub)):
            try:
                found = self.context[key]
            except KeyError:
                raise Exception(
                    'KeyError, Expected ``baz`` and ``blub`` after update'
                )
            if found is not expected:
                raise Exception(
                    'Object at ``{}`` not expected one after '
                    'update'.format(key))
""")
R(TF, """        count = len(self.context)
        if count != 2:
            raise Exception(
                'Expected 2-length result. Got ``{}``'.format(count)
            )

    def test_update""", """        count = len(self.context)
        if count == 2:
            return
        raise Exception(
            'Expected 2-length result. Got ``{}``'.format(count)
        )

    def test_update""")
R(TF, """        if self.node_checks:
            values = sorted(
                values,
                key=lambda x: '' if x.__name__ is None else x.__name__
            )
            for value in values:
                if value.__name__ not in expected:
                    msg = 'Expected __name__ of value invalid. Got ``{}``'
                    raise Exception(msg.format(value.__name__))
""", """        if not self.node_checks:
            return
        for value in values:
            if value.__name__ not in expected:
                msg = 'Expected __name__ of value invalid. Got ``{}``'
                raise Exception(msg.format(value.__name__))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        if any(key not in expected for key in keys):
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        if not all(key in expected for key in keys):
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        if not set(keys).issubset(expected):
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        if set(keys) - set(expected):
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
""", """        wrong = next((key for key in keys if key not in expected), None)
        if wrong is not None:
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(keys),
                str(expected)
            ))
""")
R(TF, """        for key, value in items:
            if value is not self.context[key]:
                raise Exception('Expected {}, got {}'.format(
                    str(value),
                    str(self.context[key])
                ))
""", """        for item in items:
            expected_value = self.context[item[0]]
            if item[1] is expected_value:
                continue
            raise Exception('Expected {}, got {}'.format(
                str(item[1]),
                str(expected_value)
            ))
""")
R(TF, """        try:
            self.context['baz']
            self.context['blub']
        except KeyError:
            raise Exception(
                'KeyError, Expected ``baz`` and ``blub`` after update'
            )
        if baz is not self.context['baz']:
            raise Exception('Object at ``baz`` not expected one after update')
        if blub is not self.context['blub']:
            raise Exception('Object at ``blub`` not expected one after update')
""", """        for name, expected in (('baz', baz), ('blub', blub)):
            try:
                found = self.context[name]
            except KeyError:
                raise Exception(
                    'KeyError, Expected ``baz`` and ``blub`` after update'
                )
            if found is not expected:
                raise Exception(
                    'Object at ``{}`` not expected one after update'.format(
                        name))
""")
R(TF, """        try:
            self.context.pop('xxx')
            raise Exception('Expected ``KeyError`` for inexistent item.')
        except KeyError:
            pass
""", """        try:
            self.context.pop('xxx')
        except KeyError:
            pass
        else:
            raise Exception('Expected ``KeyError`` for inexistent item.')
""")
R(TF, """        self.context.popitem()
        count = len(self.context.keys())
        if count != 1:
            raise Exception(
                'Expected 1-length result. Got ``{}``'.format(count)
            )
        self.context.popitem()
        try:
            self.context.popitem()
            raise Exception(
                'Expected ``KeyError`` when called on empty mapping'
            )
        except KeyError:
            pass
""", """        mapping = self.context
        mapping.popitem()
        self._check_len(mapping.keys(), 1)
        mapping.popitem()
        raised = False
        try:
            mapping.popitem()
        except KeyError:
            raised = True
        if not raised:
            raise Exception(
                'Expected ``KeyError`` when called on empty mapping'
            )

    def _check_len(self, values, expected):
        count = len(values)
        if count != expected:
            raise Exception(
                'Expected {}-length result. Got ``{}``'.format(expected, count)
            )
""")
R(TF, """        if not self.context.has_key('foo') \\
                or not self.context.has_key('bar'):
            raise Exception(
                'Expected ``foo`` and ``bar`` return ``True`` by ``has_key``'
            )
""", """        if not all(self.context.has_key(key) for key in ('foo', 'bar')):
            raise Exception(
                'Expected ``foo`` and ``bar`` return ``True`` by ``has_key``'
            )
""")
R(TF, """        if not self.context.has_key('foo') \\
                or not self.context.has_key('bar'):
            raise Exception(
                'Expected ``foo`` and ``bar`` return ``True`` by ``has_key``'
            )
""", """        for key in ['foo', 'bar']:
            if self.context.has_key(key):
                continue
            raise Exception(
                'Expected ``foo`` and ``bar`` return ``True`` by ``has_key``'
            )
""")
R(TB, """            line = name + ': '
            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
""", """            owner = next(
                (c for c in self.class_.__mro__ if name in c.__dict__), None)
            res.append('{}: {}'.format(
                name,
                'function not found on object' if owner is None
                else owner.__name__
            ))
""")
R(TB, """            line = name + ': '
            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
""", """            res.append('{}: {}'.format(name, self._owner(name)))
""", """    def run(self):
""", """    def _owner(self, name):
        for cls in self.class_.__mro__:
            if name in vars(cls):
                return cls.__name__
        return 'function not found on object'

    def run(self):
""")
R(TB, """            if self.direct_error:
                func()
                writer.success()
                continue
            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """            try:
                func()
            except Exception as e:
                if self.direct_error:
                    raise
                writer.failed(e)
            else:
                writer.success()
""")
R(TB, """            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
""", """            res.append(line + self._owners(name))
""", """    def run(self):
""", """    def _owners(self, name):
        if name in self.class_.__dict__:
            return self.class_.__name__
        return ''.join(
            base.__name__ if name in base.__dict__
            else 'function not found on object'
            for base in self.class_.__bases__
        )

    def run(self):
""")
R(TB, """            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        continue
                    line += 'function not found on object'
            res.append(line)
""", """            if name in self.class_.__dict__:
                res.append(line + self.class_.__name__)
                continue
            for base in self.class_.__bases__:
                line += base.__name__ if name in base.__dict__ \\
                    else 'function not found on object'
            res.append(line)
""")
NE = 'events.py'
R(NE, """class NodeDetachedEvent(ObjectRemovedEvent):
    pass""", """class NodeDetachedEvent(ObjectRemovedEvent):

    def __init__(self, object, oldParent=None, oldName=None):
        super(NodeDetachedEvent, self).__init__(object, oldParent, oldName)""")
R(NE, """class NodeDetachedEvent(ObjectRemovedEvent):
    pass""", """class NodeDetachedEvent(ObjectRemovedEvent):

    def __init__(self, object, oldParent=None, oldName=None):
        ObjectRemovedEvent.__init__(
            self, object, oldName=oldName, oldParent=oldParent)""")
R(NE, """class NodeAddedEvent(ObjectAddedEvent):
    pass""", """class NodeAddedEvent(ObjectAddedEvent):

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)""")
R('behaviors/events.py', """        del getattr(obj, self.storage)[self.name]
""", """        getattr(obj, self.storage).pop(self.name)
""")
