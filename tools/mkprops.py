#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit statements, anchors, quantifiers)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
B = 'src/node/behaviors/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


p('C01', 'Stored child nodes are located at the key and parent they were stored at',
  'Whenever a node is stored as a child, by whatever way the library offers (item assignment, setdefault, update, ordered insertion, lazily created children, fixed children, nodespaces and attributes), afterwards its name is the key it was stored under and its parent is the node it was stored in. The location is already set when the layers below that do the storing see the child. A node created with a name and a parent carries exactly these. Values that are not nodes are handed on untouched and never get a location assigned.',
  ['inputs', 'programs', 'histories'], 'every key, every child (node or not), every plumbing of behaviors below adoption, every way a child gets stored',
  'Tests store a handful of string keyed children in a few classes; the statement is over every key, value kind and layer below, including those the layers below observe during the call.',
  [B + 'common.py', B + 'nodespace.py', B + 'attributes.py', 'src/node/base.py'],
  [('adoption of children', B + 'common.py Adopt.__setitem__/setdefault'), ('fixed children', B + 'common.py FixedChildren.__init__'), ('nodespaces', B + 'nodespace.py Nodespaces.__setitem__'), ('attributes container', B + 'attributes.py Attributes.attrs')],
  [('__name__/__parent__', 'location of a node')])

p('C02', 'A refused child keeps the location it had before the attempt',
  'If storing a node fails with any error, whatever kind and from whatever layer below, the error reaches the caller unchanged and name and parent of the refused node are exactly what they were before the attempt. The attempt is made exactly once.',
  ['fault_sequences', 'inputs'], 'every exception type the layers below may raise, every prior location of the child',
  'A test can make one layer raise a few exception types; the statement is over all exception types and all prior locations, and each failure path has to restore both halves of the location.',
  [B + 'common.py'], [('rollback of adoption', B + 'common.py Adopt.__setitem__')],
  [('__name__/__parent__', 'location of the refused node')])

p('C03', 'Child validation refuses classes and non-nodes before anything changes',
  'Unless a node explicitly allows arbitrary values, storing a class or any value that is not a node raises ValueError, and nothing is stored, located, indexed or announced. Nodes, and arbitrary values if these are allowed, are handed on exactly once with key and value unchanged. In the ready-made node classes this check comes before every other effect of storing a child.',
  ['inputs', 'configurations'], 'every value (class, instance, node, non-node), both settings of the permission flag, all ready-made node classes',
  'Tests try one class and one object; a bypass for some kind of value, or an effect that happens before the refusal, is invisible to them.',
  [B + 'common.py', 'src/node/base.py', B + 'attributes.py'],
  [('validation', B + 'common.py NodeChildValidate.__setitem__'), ('layer order', 'src/node/base.py BaseNode, OrderedNode, Node, AttributedNode')])

p('C04', 'Adding a subtree to a referencing tree keeps uuids unique and findable',
  'After adding a subtree, every node of it can be found by uuid from every node of the tree, and so can nodes which are added below that subtree later. If the subtree contains a uuid the tree already contains (also for childless nodes and for the very same node), ValueError is raised, and neither index is changed. If storing fails for any other reason, both indexes are as they were before.',
  ['histories', 'inputs', 'fault_sequences'], 'every tree and subtree, every history of additions before and after, every failure of the layers below',
  'Tests check a two level example; the statement is over all subtrees, later additions and failures, which need index sharing on every path.',
  [B + 'reference.py'], [('index merge', B + 'reference.py Reference.__setitem__'), ('lookup', B + 'reference.py Reference.node, NodeIndex')],
  [('index', 'uuid to node mapping shared by all nodes of a tree')])

p('C05', 'Removing a child or changing a uuid keeps the uuid index exact',
  'Deleting or detaching a child removes exactly the uuids of the removed subtree from the index of the tree and makes the removed subtree a tree with an index of its own; if deletion fails or the child does not exist, the index is unchanged. Storing a node under a key in use takes the uuids of the child replaced and its descendants out of the index. Assigning a new uuid makes the node findable under the new and not under the old uuid. Assigning a uuid used by another node of the tree raises ValueError and changes nothing.',
  ['histories', 'inputs', 'fault_sequences'], 'every tree, every subtree removed, nodes and non-node children, every uuid including the nil uuid',
  'Tests delete one example subtree; the property is over every subtree shape, failing deletions and what happens to a removed subtree afterwards.',
  [B + 'reference.py'], [('index removal', B + 'reference.py Reference.__delitem__/detach/_to_delete/_index_nodes'), ('uuid change', B + 'reference.py Reference.uuid')],
  [('index', 'uuid to node mapping shared by all nodes of a tree')])

p('C06', 'Ordered insertion puts exactly one located child at the requested place',
  'Inserting a node first, last, before or after a reference child puts it exactly there, under its own name, and runs it through regular item assignment. A node without name (None), a reference node which is not a child, a node already contained in the tree or a name already in use is refused before anything is changed, and a node refused later on does not remain in the children. Swapping exchanges the positions of the two given children and nothing else.',
  ['inputs', 'histories', 'fault_sequences'], 'every number of children, every position, every node inserted, every failure of item assignment',
  'Tests insert into one small example; wrong argument order for one of the operations, missing validation or leftovers after failures show up only for specific states.',
  [B + 'order.py'], [('insertion', B + 'order.py Order.insertfirst/insertlast/insertbefore/insertafter'), ('validation', B + 'order.py Order._validateinsertion'), ('swap', B + 'order.py Order.swap')])

p('C07', 'Every node keeps its own children; storage access is faithful',
  'Reading, writing, deleting and iterating children of a storage-backed node act on exactly the given key of that node\'s own storage, missing keys raise KeyError, and iteration yields every stored key. The storage is created once per node on first use, never shared between two nodes, and never replaced afterwards. Nodes declared as ordered keep children in order of insertion.',
  ['histories', 'inputs'], 'every key and value, every interleaving of operations on any number of nodes',
  'Tests work with few nodes; state accidentally shared between nodes or recreated on a later access needs a specific history to show up.',
  [B + 'storage.py', 'src/node/utils.py', 'src/node/base.py'],
  [('storage endpoints', B + 'storage.py Storage, DictStorage, OdictStorage'), ('create once', 'src/node/utils.py instance_property')],
  [('storage', 'children of a node by key')])

p('C08', 'All reading mapping operations agree with item access and iteration',
  'Keys, values, items, their iterating variants, length, containment and defaulted lookup report exactly what item access and iteration of the node report, in iteration order, each child once. Defaulted lookup and containment treat a missing key as absent, and every error other than a missing key reaches the caller.',
  ['inputs', 'programs', 'fault_sequences'], 'every implementation of item access and iteration, every default value, every error raised by item access',
  'The tests use one dict backed implementation that never fails; the statement is over every implementation of item access and every error it may raise.',
  [B + 'mapping.py'], [('reading', B + 'mapping.py ReadMapping, EnumerableMapping, IterableMapping, ExtendedReadMapping')])

p('C09', 'All writing mapping operations act through item access, with dict semantics',
  'Clearing, updating, defaulted setting, popping and popping the last item change the node only by item assignment and item deletion of exactly the children concerned, and return what a dict would return. A default given for popping, including None, is returned only for a missing key and never hides another error; without default a missing key raises KeyError. No operation iterates live children while deleting them.',
  ['inputs', 'programs', 'fault_sequences'], 'every implementation of item access, every key, default and data given, every error raised by item access',
  'The tests use one dict backed implementation and common arguments only.',
  [B + 'mapping.py', B + 'common.py'], [('writing', B + 'mapping.py ExtendedWriteMapping'), ('re-routed setdefault', B + 'common.py Adopt.setdefault')])

p('C10', 'Path, root and acquisition follow the parent chain exactly',
  'The path of a node lists the names from the root down to the node itself, the root is the last node of the parent chain, and name and parent report the current location. Acquisition returns the nearest ancestor, never the node itself, that provides the interface or is an instance of the class, and None if there is none. Looking up a node by path descends one key after the other, the empty path meaning the start node.',
  ['inputs', 'histories'], 'every depth and every location, interfaces and classes, paths given as text or sequence',
  'Tests use trees of depth two or three; off-by-one and start/end errors for other depths and types of criteria are not covered.',
  [B + 'nodify.py', 'src/node/utils.py'], [('location', B + 'nodify.py Nodify.path/root/acquire/name/parent'), ('chain', 'src/node/utils.py LocationIterator, node_by_path')])

p('C11', 'Copies carry location and children; uuids of deep copies are fresh',
  'A shallow copy of a node is a new object with name and parent of the original. Shallow copies of uuid aware nodes are refused with RuntimeError. A deep copy of a uuid aware node gets a new uuid, and, if configured, every uuid aware node below it as well; values that are not nodes do no harm, the original keeps its uuids, and a uuid is never replaced unless missing or overriding is requested.',
  ['inputs', 'configurations', 'histories'], 'every tree copied, every mix of children, both settings of recursive overriding',
  'Tests copy one small tree; the statement is over every tree shape and mix of children.',
  [B + 'nodify.py', B + 'mapping.py', B + 'common.py'], [('copy', B + 'nodify.py Nodify.copy, mapping.py ClonableMapping'), ('uuid', B + 'common.py UUIDAware')])

p('C12', 'Nodespace keys are routed consistently for reading, writing and deleting',
  'Keys that are text starting and ending with two underscores address the nodespaces of a node and never its children, all other keys, text or not, address its children and never the nodespaces, and reading, writing and deleting agree on that. A nodespace stored is located at its key and node. The nodespaces of a node are created once, belong to that node only, and contain the node itself as its children nodespace.',
  ['inputs', 'histories'], 'every key of any type, every value, every sequence of reads, writes and deletes',
  'Tests try a few keys; disagreement between the three operations shows up for particular keys and types only.',
  [B + 'nodespace.py'], [('routing', B + 'nodespace.py Nodespaces.__getitem__/__setitem__/__delitem__'), ('container', B + 'nodespace.py Nodespaces.nodespaces')])

p('C13', 'A node has one attributes container, created on demand and located',
  'Attributes of a node are always the same container, created by the configured factory on first access with the reserved attributes name and the node as parent, and kept as nodespace of that node. If attribute style access is configured, a view on that very container is returned instead. Attribute containers accept arbitrary values and never appear as children.',
  ['histories', 'configurations'], 'every history of attribute access, every factory, both access settings',
  'Tests access attributes in one or two configurations and do not check what happens over a history of accesses.',
  [B + 'attributes.py'], [('container', B + 'attributes.py Attributes.attrs, NodeAttributes')])

p('C14', 'A caching node never serves a child the uncached node would not serve',
  'Reading returns the cached child or reads it once and caches it under its key; a missing child is an error and never cached. Setting or deleting a child drops its cached entry, also if the child gets read while that happens, invalidating drops the entry of the key given or all of them, and each passes the call on exactly once with the very same arguments. Afterwards the next read asks the layers below again.',
  ['histories', 'programs', 'fault_sequences'], 'every history of reads, writes, deletes and invalidations, every behavior below the cache, every failure of these',
  'Tests do a short sequence with one storage; stale entries need a particular history or layer below to occur.',
  [B + 'cache.py'], [('cache', B + 'cache.py Cache')], [('cache', 'children read so far by key')])

p('C15', 'Invalidation drops exactly the children asked for',
  'Invalidating with a key drops exactly that child, raising KeyError if the node has no such child, and without a key, which is told apart from falsy keys, drops all children. Nodes with volatile storage drop loaded children from the storage only, leaving their own deletion untouched, and accept a valid key that is currently not loaded. Children are never dropped while iterating them live.',
  ['inputs', 'histories'], 'every key including falsy ones, every set of loaded children',
  'Tests invalidate one string key in one state.',
  [B + 'cache.py'], [('invalidate', B + 'cache.py Invalidate, VolatileStorageInvalidate')])

p('C16', 'Aliased access translates keys the same way for all operations',
  'Reading, setting and deleting by an alias act exactly once on the child whose key the alias translates to, and iteration yields the alias of every key. A missing child raises KeyError naming the alias the caller used, other errors pass unchanged. Keys without alias are hidden from iteration only for whitelisting aliasers, for others the error is raised; without aliaser keys pass unchanged.',
  ['inputs', 'programs', 'fault_sequences'], 'every aliaser including empty ones, every key, every error of the layers below',
  'Tests use two aliasers and few keys.',
  [B + 'alias.py'], [('alias', B + 'alias.py Alias')])

p('C17', 'Translating a key to its alias and back returns the key, for all aliasers',
  'For every key an aliaser translates, translating its alias back gives the key again, for dictionary, prefix, suffix, combined and chained aliasers, also if prefix or suffix are empty or not set. Aliases that do not match prefix or suffix, and in strict mode keys and aliases not listed in the dictionary, raise KeyError; in non-strict mode they are returned unchanged.',
  ['inputs', 'configurations'], 'every key, prefix, suffix and chain, strict or not',
  'Tests translate one or two keys per aliaser with non-empty prefix and suffix.',
  [B + 'alias.py'], [('aliasers', B + 'alias.py DictAliaser, PrefixAliaser, SuffixAliaser, AliaserChain, PrefixSuffixAliaser'), ('reverse lookup', 'src/node/utils.py ReverseMapping')])

p('C18', 'Text encoding and decoding reaches every nested value and nothing else',
  'Encoding and decoding work on arbitrarily nested lists, tuples, dicts and nodes, converting every text or byte value and every key, keep type, order and length of sequences, leave other values as they are and never modify the structure given. Undecodable bytes are left as they are in soft mode and raise the decoding error otherwise. The configured encoding is the one used in both directions.',
  ['inputs', 'configurations'], 'every nested structure, every encoding, both modes',
  'Tests convert a few structures with one encoding.',
  ['src/node/utils.py'], [('codec', 'src/node/utils.py StrCodec, encode, decode')])

p('C19', 'Nodes aware of unicode see text keys and values only',
  'Byte keys are decoded before reading, setting and deleting, and byte values before setting, and the result of decoding is what gets used; all other keys and values pass unchanged. Each operation is passed on exactly once, and the value read is returned.',
  ['inputs'], 'every key and value of any type',
  'Tests use few keys; a missing conversion in one of the operations needs a byte key there.',
  [B + 'common.py'], [('decoding', B + 'common.py UnicodeAware')])

p('C20', 'Lifecycle events report each successful change exactly once, and only these',
  'Creating a node, adding, removing and detaching a child send exactly one created, added, removed or detached event carrying the node concerned, the parent and the name, after the change succeeded; a failed change sends none. Detaching sends the detached event and no removed event. Suppression of notification while detaching is always undone, whether detaching succeeds or fails, and while in effect suppresses added and removed events.',
  ['histories', 'fault_sequences', 'inputs'], 'every history of changes, every failure of the layers below',
  'Tests check the events of a successful example; event count and suppression after failures are not observed.',
  [B + 'lifecycle.py', 'src/node/events.py'], [('lifecycle', B + 'lifecycle.py Lifecycle')], [('suppression flag', 'events are suppressed while detaching')])

p('C21', 'Changes of attributes announce the node as modified, exactly once',
  'Setting or deleting an attribute of a node with attribute lifecycle sends exactly one modified event for the node owning the attributes, after the change succeeded. A failed change sends none, and neither do changes while notification is suppressed on the owning node.',
  ['histories', 'fault_sequences'], 'every attribute change, every failure of the layers below',
  'Tests check one set and one delete.',
  [B + 'lifecycle.py'], [('attributes lifecycle', B + 'lifecycle.py AttributesLifecycle')])

p('C22', 'Subscribers are called exactly as they are bound when an event is dispatched',
  'Dispatching calls every subscriber bound to that event on that object at the time of dispatching exactly once, in order of binding, with exactly the arguments given, and no other; subscribers binding or unbinding meanwhile cause no other subscriber to be skipped. Binding twice has the effect of binding once, binding to an unknown event raises an error and binds nothing to it, and unbinding removes exactly the given subscriber, event, combination or everything. Registered events and subscribers belong to one object, declared events to one class and its subclasses.',
  ['histories', 'inputs', 'programs'], 'every history of register, bind, unbind and dispatch on any number of objects and classes',
  'Tests run short histories on one object; leaking between objects or classes, or wrong combinations of unbinding arguments, need other histories.',
  [B + 'events.py'], [('dispatcher', B + 'events.py Events'), ('class events', B + 'events.py event_dispatcher_metclass_hook')])

p('C23', 'Event attributes store first, then announce real changes only',
  'Setting an event attribute stores the value for that object and attribute first and then dispatches the event with the new value if the value changed, or always if configured so; reading returns the stored value or the default. Subscribers registered with the attribute are called for that event only, before those bound to the object, and get the object as well. Deleting removes the value and announces that it is unset.',
  ['histories', 'inputs', 'configurations'], 'every value set, every history, every storage configured',
  'Tests set few values in sequence; order of storing and dispatching and leaking of attribute subscribers into other events are not covered.',
  [B + 'events.py'], [('descriptor', B + 'events.py EventAttribute, _subscribers')])

p('C24', 'Event suppression is in effect exactly while entered, for the events named',
  'While at least one suppression is entered, dispatching an event named by it, or any event if it names none, calls no subscriber; other events are delivered. Leaving, normally or by an error, takes back exactly what entering added, errors are not swallowed, suppressions nest, entering returns the nesting depth, and creating one without entering it has no effect. A suppressed dispatch leaves nothing behind that is delivered later.',
  ['histories', 'fault_sequences', 'inputs'], 'every nesting of suppressions, every way to leave them, every event dispatched meanwhile',
  'Tests nest two suppressions and leave them normally.',
  [B + 'events.py'], [('suppression', B + 'events.py suppress_events, Events.dispatch')])

p('C25', 'Dispatching, suppressing and fallback work in, and only affect, the own thread',
  'Dispatching and suppressing events and fallback lookups work in every thread, not just in the one that imported the library. Suppression and lookup state of one thread is never seen by another.',
  ['schedules'], 'every thread and every interleaving',
  'Tests run in the importing thread only, the one thread where missing initialization cannot show up.',
  [B + 'events.py', B + 'fallback.py'], [('thread state', B + 'events.py suppress_events.data, _attribute_subscribers; fallback.py fallback_processing.data')])

p('C26', 'Fallback lookup only helps out for missing keys and always ends consistently',
  'A key found on the node is returned without looking for fallbacks, and errors other than a missing key pass unchanged. For a missing key the same sub path below the fallback child of each ancestor defining one is searched from the nearest ancestor to the root, each at most once, and if nothing is found the missing key is reported as KeyError. Lookups made while searching do not start a search of their own, and after the search, however it ends, the next lookup searches again. Looking up changes no node.',
  ['inputs', 'histories', 'fault_sequences'], 'every tree, fallback configuration and key, every way the search ends',
  'Tests look up few keys in one tree; leaving the state unbalanced on a failing search shows up in later lookups only.',
  [B + 'fallback.py'], [('lookup', B + 'fallback.py Fallback.__getitem__, _to_root, _to_leaf'), ('recursion guard', B + 'fallback.py fallback_processing')])

p('C27', 'All nodes of a tree share one lock, released however the locked code ends',
  'Locking any node of a tree locks the one lock of its root, created once even if several threads lock the tree first at the same time, and reentrant for the owning thread. The lock is acquired before the locked code runs and released exactly once after it, whether it returns or raises. A locked method receives its arguments unchanged, and its result or error reaches the caller.',
  ['schedules', 'fault_sequences'], 'every node, every interleaving of first use, every way the locked code ends',
  'Tests take the lock in one thread and do not fail inside.',
  ['src/node/locking.py'], [('tree lock', 'src/node/locking.py TreeLock, locktree')])

p('C28', 'Every serialized value has a reader that restores it',
  'Whatever special value serialization marks (unset values, uuids, references to classes, methods and functions), on top level and nested in lists and dicts, deserialization recognizes by the same mark and restores; all other values pass unchanged. In simple mode plain data without marks is produced.',
  ['inputs', 'configurations'], 'every value and nesting, both modes',
  'Tests serialize one value of each kind on few nesting levels; writer and reader have to agree on every mark.',
  ['src/node/serializer.py'], [('writer', 'src/node/serializer.py NodeEncoder.default'), ('reader', 'src/node/serializer.py NodeDecoder.decode')])

p('C29', 'Serialization of a tree covers class, name, children in order and attributes',
  'Serializing a node writes its class, name, every child in order and, if it has attributes, every attribute, each run through the registered serializers that apply; deserializing creates a node of that class with that name, places it in the given parent, restores children in it in order and restores every attribute. What the writing side of each registered pair stores is what the reading side looks for. Simple mode writes the same data, with the class only if asked for.',
  ['inputs', 'programs', 'configurations'], 'every tree, every class, every registered serializer pair, both modes',
  'Tests round trip small examples; dropping or misplacing data for other shapes is not seen.',
  ['src/node/serializer.py'], [('node', 'src/node/serializer.py serialize_node/deserialize_node, NodeDecoder.node_factory'), ('attributes', 'src/node/serializer.py serialize_node_attributes/deserialize_node_attributes'), ('registry', 'src/node/serializer.py serializer, deserializer')])

p('C30', 'Factory children are created once, stored, and fixed children stay fixed',
  'Reading a child from a node with child factories returns the stored child, or creates it with the factory of that key, stores it by item assignment and returns it; an existing child is never created again, a key without factory raises KeyError, and iteration yields the factory keys. Nodes with fixed children create each of them once at initialization, in order, and refuse setting and deleting children.',
  ['histories', 'inputs'], 'every key, factory and access history',
  'Tests read one or two children once or twice.',
  [B + 'common.py'], [('factories', B + 'common.py ChildFactory'), ('fixed children', B + 'common.py FixedChildren')])

p('C31', 'Attribute style access mirrors item access of the wrapped object',
  'Reading, setting and item access through attribute style access act on exactly the same key of the wrapped object, whatever the name, and never on the view itself. A missing key shows up as AttributeError for attributes and as KeyError for items; other errors pass unchanged. Nodes exposing children as attributes do so by the same rules.',
  ['inputs', 'fault_sequences'], 'every name and value, every error raised by the wrapped object',
  'Tests use one or two names and never a failing context.',
  ['src/node/utils.py', B + 'common.py'], [('view', 'src/node/utils.py AttributeAccess; ' + B + 'common.py AsAttrAccess, GetattrChildren')])

p('C32', 'The reversed view of a mapping is its exact inverse',
  'The reversed view maps each value of the mapping to a key it is stored under, lists values as keys and keys as values in the order of the mapping, and has its length. A value that is not contained raises KeyError, is reported as not contained and yields the default.',
  ['inputs'], 'every mapping and value, including falsy values and defaults',
  'Tests use one small dict.',
  ['src/node/utils.py'], [('inverse', 'src/node/utils.py ReverseMapping')])

p('C33', 'Classes deliver what the interfaces they declare promise',
  'Every class of the library (mockups in node.testing aside) that declares an interface offers each method of it, callable with the arguments the interface names and with the defaults it names, and each attribute. A behavior intercepting a method of an interface does not narrow the arguments it takes. A public class for which the library has an interface of the same name (INAME for class NAME) provides it, and so do the aliasers, as consumers find them by asking for the interface. The ready-made node classes provide the full node interface, with the storage, order, reference, attribute and nodespace capabilities they are composed for.',
  ['programs', 'configurations'], 'every class of the library, every interface it declares, every member of it',
  'Tests verify few interfaces on few classes; interface verification is not run over all classes.',
  ['src/node/interfaces.py', 'src/node/base.py', 'src/node/behaviors/__init__.py'], [('declarations', 'implementer declarations all over src/node'), ('composition', 'src/node/base.py')])

p('C34', 'Filtering and printing a tree cover every child exactly once, in order',
  'Filtering children by interface yields exactly the children that provide it, in order. The tree representation contains one line for the node and for each child, in order of children for ordered nodes and sorted by key otherwise, each indented deeper than its parent, nodes being represented recursively with the options given.',
  ['inputs'], 'every tree, every mix of node and non-node children, every interface',
  'Tests print a few small trees.',
  [B + 'nodify.py'], [('filter', B + 'nodify.py Nodify.filtereditervalues/filteredvalues'), ('representation', B + 'nodify.py Nodify.treerepr')])

p('C35', 'Helper decorators and sentinels are transparent',
  'A property computed once per instance returns the value first computed for that instance ever after, is computed only if not present yet, and does not confuse values of different properties or instances. A function decorated for debugging is called exactly once with the arguments given, its result is returned and its errors pass. The unset marker is false, empty, and distinguishable from None and from any other value.',
  ['inputs', 'histories'], 'every decorated function, argument, result and error',
  'Tests decorate one function each.',
  ['src/node/utils.py'], [('helpers', 'src/node/utils.py instance_property, debug, Unset')])

# ---------------------------------------------------------------------------
# properties static analysis of this code base cannot decide
# ---------------------------------------------------------------------------

p('C40', 'What a class defines itself wins over the defaults of behaviors',
  'Whatever a behavior offers to be configured or supplied by the class using it (child factories, fixed children, permission for arbitrary values, attributes factory and attribute style access, aliaser, cache, storage, invalidation, fallback key, lifecycle events, uuid factory and renewal, attribute access, and all mapping operations) is a default only: a definition of the class itself or of one of its base classes is what counts, and is never replaced or refused. New uuids are made by the uuid factory of the class.',
  ['programs', 'configurations'], 'every class using a behavior of the library, its own definitions and those of its base classes',
  'Tests define a handful of classes, mostly without base classes supplying the configuration; the statement is over every class one may write.',
  [B + 'common.py', B + 'mapping.py', B + 'nodify.py', B + 'storage.py', B + 'cache.py', B + 'attributes.py', B + 'lifecycle.py', B + 'alias.py', B + 'fallback.py'],
  [('defaults', B + '*.py members declared default'), ('uuid factory', B + 'common.py UUIDAware')])

p('C41', 'Nodes are true, and show class and name whatever the name is',
  'The truth of a node is independent of its children: nodes of all kinds, attributes included, are true also if they are empty, and testing them reads no children. The representation of a node and the line printed for it show its class and its name (attributes those of the node they belong to) and never fail, whatever the name is (none, text with or without colon, bytes, numbers, tuples) and whether or not there is a parent.',
  ['inputs', 'programs'], 'every node class, every number of children, every name, with and without parent',
  'Tests print nodes named by text; the statement is over every name and location.',
  [B + 'nodify.py', B + 'attributes.py'],
  [('truth', B + 'nodify.py Nodify.__nonzero__/__bool__'), ('representation', B + 'nodify.py Nodify.__repr__/noderepr, ' + B + 'attributes.py NodeAttributes.__repr__')])

p('C42', 'The contract tester reports exactly what conforms',
  'Running a contract tester tests every entry of the contract once, in order, with the function named after it, on the context given or else on a new instance of the class given. An entry is reported OK if its test returned and failed with the error otherwise, under its own name; errors are collected, all further entries being tested nevertheless, or passed on if direct_error is set; an entry without test function is refused with a ContractError. The combined report has one line for each result, sorted by name; the origin report one line for each entry, naming the class the operation is inherited from or that there is none. The contract of the full mapping tester consists of all mapping operations, and none of its tests passes for a mapping whose operation gives a wrong number of keys, values or items, keys never added, items differing from what is looked up, a default for an existing child, something else than the default for a missing one, wrong membership or length, lost or wrong children after update, setdefault, deletion, pop, popitem or clear, errors expected but not raised, or a copy which is the mapping itself or has other children, name or parent (name and parent of the mapping are restored afterwards).',
  ['inputs', 'programs'], 'every class tested, every way its operations deviate from the contract',
  'Tests feed the tester a few mappings which lack an operation completely; they cannot sample the ways an operation may be wrong.',
  ['src/node/testing/base.py', 'src/node/testing/fullmapping.py'],
  [('running and reports', 'src/node/testing/base.py BaseTester'), ('tests of operations', 'src/node/testing/fullmapping.py FullMappingTester')])

p('C36', 'Concurrent changes of a locked tree are serializable',
  'If all threads change a tree only while holding its lock, the resulting tree is one that some sequential order of the changes produces.',
  ['schedules'], 'every interleaving of any number of threads changing a tree',
  'Tests cannot enumerate schedules.',
  ['src/node/locking.py'], [('tree lock', 'src/node/locking.py TreeLock')])

p('C37', 'A serialized tree deserializes to an equal tree',
  'Deserializing what was serialized gives a tree equal to the original one, for every tree of importable node classes and every value json is able to represent.',
  ['inputs', 'programs'], 'every tree, every class, every value',
  'Tests round trip small examples.',
  ['src/node/serializer.py'], [('round trip', 'src/node/serializer.py serialize, deserialize')])

p('C38', 'Walking the ancestors of a node ends',
  'Path, root, acquisition and fallback lookup return for every tree that can be built with the public operations.',
  ['histories'], 'every history of public operations',
  'Tests build few trees, none of them degenerated.',
  ['src/node/utils.py', B + 'nodify.py', B + 'fallback.py'], [('chain', 'src/node/utils.py LocationIterator')])

p('C39', 'Changes of a copied tree never show up in the original',
  'Whatever is changed on a copy of a tree, children, attributes, uuids or cached state, leaves the original tree as it was, and the other way round.',
  ['histories', 'inputs'], 'every tree, every history of changes after copying',
  'Tests change one child of one copy.',
  [B + 'mapping.py', B + 'nodify.py'], [('copy', B + 'mapping.py ClonableMapping')])

with open(OUT, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
