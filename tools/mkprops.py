"""Writes /verif/properties.jsonl (kept as a script: easier to review)."""
import json, os
P = []
B = 'src/node/behaviors/'
def prop(id, title, st, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': st,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'All read views of a node agree with iteration and item lookup',
 'On any mapping node, the key, value and item listings (eager and lazy), length, truth value, containment test, has_key and get-with-default are exactly what iterating the node and looking up each key gives: same members, same order, default or KeyError/False exactly for absent keys. A node is always true, also when empty. Reading through any of these views never changes the node.',
 ['inputs', 'histories'], 'for every node content (any number of children, any keys and values, in any order), every probe key and default, and any conforming implementation of iteration and lookup below the generic views',
 'The tests call each view on two or three hand built nodes; they cannot cover every content, key and underlying implementation of iteration and lookup.',
 [B+'mapping.py', B+'nodify.py', B+'storage.py'],
 [('read mapping defaults', B+'mapping.py ReadMapping, EnumerableMapping, IterableMapping, ExtendedReadMapping'), ('storage iteration and lookup', B+'storage.py Storage')],
 ['keys()', 'values()', 'items()', 'iterkeys()', 'itervalues()', 'iteritems()', 'len()', 'in', 'has_key()', 'get()'])

prop('C02', 'Setting, getting and deleting children follows ordered-dictionary semantics',
 'On dict and ordered-dict backed nodes and node attributes, after storing an allowed value under a key that key looks up the very same object, every other key keeps its value, a new key goes to the end of the order and an overwritten key keeps its position. Deleting removes exactly that key and keeps the order of the others. Looking up or deleting an absent key raises KeyError and leaves everything as it was, and nodes never share their children storage with other nodes.',
 ['inputs', 'histories'], 'for every prior content, every key and every allowed value, for the unordered, ordered and full featured base nodes and for node attributes',
 'Tests store and delete a handful of literal keys; the frame (nothing else changed, order kept) for arbitrary contents is not observable by sampling.',
 [B+'storage.py', 'src/node/base.py', 'src/node/utils.py'],
 [('storage access', B+'storage.py Storage.__getitem__/__setitem__/__delitem__/__iter__'), ('lazy per node storage', 'src/node/utils.py instance_property')],
 ['node[key]', 'node[key] = value', 'del node[key]', 'iter(node)'])

prop('C03', 'Pop, popitem, setdefault, update and clear equal their item operation sequences',
 'Each extended write operation has exactly the effect of the item operations it stands for: update stores every given pair in the given order (positional data before keyword data; more than one positional argument is a TypeError without effect), setdefault stores only when the key is absent and returns what the key then refers to, pop removes one key and returns its value (given default or KeyError when absent), popitem removes and returns the last pair (KeyError when empty) and clear removes every key. An operation that fails for an absent key changes nothing.',
 ['inputs', 'histories'], 'for every prior content, key, default, and every sequence or mapping of update data',
 'Tests run each operation once on a fixed node; arbitrary sizes, contents and defaults (None, False, explicit default) need a proof over all contents.',
 [B+'mapping.py', B+'common.py'],
 [('extended write defaults', B+'mapping.py ExtendedWriteMapping'), ('adopting setdefault', B+'common.py Adopt.setdefault')],
 ['update()', 'setdefault()', 'pop()', 'popitem()', 'clear()'])

prop('C04', 'A stored node is adopted, and a failing store leaves name and parent as before',
 'After a node has been successfully stored in an adopting node, its name is the key and its parent is the storing node. If the store fails with an attribute, key or value error, the error propagates and the name and parent of the value are what they were before. Values which are no nodes are handed through unmodified, and no other node gets its name or parent changed.',
 ['inputs', 'fault_sequences'], 'for every key, value, previous name and parent of the value, and every outcome of the underlying store operation',
 'Tests check one success and one or two failures; which failures happen below the adopting layer and what state the value had before is unbounded.',
 [B+'common.py'], [('adoption with rollback', B+'common.py Adopt.__setitem__')],
 ['value.name', 'value.parent', 'node[key] = value'])

prop('C05', 'Child validation accepts exactly the allowed values',
 'A validating node which does not allow non node children raises ValueError for every class and every value that is no node, and then neither the node nor the value is changed. Every node value, and every value at all when non node children are allowed, is passed on exactly once under the given key.',
 ['inputs'], 'for every key and every kind of value, both settings of the flag, and any implementation below the validation',
 'Tests try a few literal values; the property is over all values and both flag settings including per instance overrides.',
 [B+'common.py'], [('validation', B+'common.py NodeChildValidate.__setitem__')], ['node[key] = value'])

prop('C06', 'Path, root, parent, name and acquisition agree with the parent chain',
 'For a node at any depth, its path lists the names from the outermost ancestor down to the node itself, its root is the outermost ancestor, and resolving the path without its first element from the root (as a sequence, or as a slash separated string of non empty names without slashes, leading and trailing slashes ignored) gives the node back. Acquiring an interface or class returns the nearest ancestor matching it, never the node itself, or nothing if there is none; filtering children by interface gives exactly the children providing it, in order. None of this modifies the tree.',
 ['inputs'], 'for every tree shape and depth, every name and every acquired interface or class',
 'Tests build trees of depth two or three; depth and the position of matching ancestors are unbounded.',
 [B+'nodify.py', 'src/node/utils.py'],
 [('navigation', B+'nodify.py Nodify.path/root/acquire/filtereditervalues'), ('parent chain', 'src/node/utils.py LocationIterator'), ('path resolution', 'src/node/utils.py node_by_path')],
 ['node.path', 'node.root', 'node.acquire()', 'node_by_path()', 'node.filteredvalues()'])

prop('C07', 'Copies are independent of the original',
 'The copy method of a storage backed node gives a new node of the same type with same name and parent, holding the identical children under the same keys in the same order; afterwards adding, replacing or removing children of either one leaves the children of the other unchanged. A deep copy of a root node has equal structure, keys, order, names and parent links inside the copy, and shares no node with the original, which stays unmodified.',
 ['inputs', 'histories'], 'for every content and every later change to either of both nodes; unordered and ordered base nodes',
 'Tests compare identity of one child once; independence is about all contents and all later changes of both objects.',
 [B+'mapping.py', B+'nodify.py', B+'storage.py'],
 [('copy', B+'mapping.py ClonableMapping'), ('name and parent', B+'nodify.py Nodify.copy'), ('own storage', B+'storage.py DictStorage/OdictStorage')],
 ['node.copy()', 'node.deepcopy()'])

prop('C08', 'Ordered insertion and swapping give exactly the requested order',
 'Inserting a named node first, last, before or after a reference child puts it at exactly that position, adopts it and keeps the relative order and identity of all other children; swapping two different children exchanges exactly their positions. A nameless node, a reference that is no child, a node already in the tree and a name already in use are rejected with ValueError or KeyError; after a rejected insertion the children, their order and the rejected node are as before.',
 ['inputs', 'histories'], 'for every number and order of children, every reference position and every inserted node',
 'Tests insert into lists of two or three children; positions, sizes and rejected combinations are unbounded.',
 [B+'order.py'], [('insertion', B+'order.py Order.insertfirst/insertlast/insertbefore/insertafter/_validateinsertion'), ('swap', B+'order.py Order.swap')],
 ['insertfirst()', 'insertlast()', 'insertbefore()', 'insertafter()', 'swap()', 'keys()'])

prop('C09', 'The node index contains exactly the nodes of the tree',
 'In a tree of referencing nodes which was built and changed by storing, replacing, inserting, deleting, popping and detaching nodes (each node being in at most one place), every node of the tree sees the same index, which maps the uuids of exactly the nodes reachable as children from the root, at any depth, to these nodes. A deleted, replaced, popped or detached subtree is an own tree with its own exact index. A failing store leaves the indexes of the tree and of the value unchanged.',
 ['histories', 'inputs'], 'for every tree shape and depth and every sequence of tree changing operations including failing ones',
 'Tests check index length after a few fixed operations; an invariant over all histories and depths cannot be sampled.',
 [B+'reference.py'], [('index maintenance', B+'reference.py Reference.__setitem__/__delitem__/detach/_to_delete/_index_nodes')],
 ['node.node(uuid)', 'node.index'], [('index', 'uuid to node map shared by a tree', B+'reference.py')])

prop('C10', 'Uuids are unique within a tree and lookups by uuid are exact',
 'Assigning an unused uuid to a node, nil uuid included, makes the node found under the new uuid and no longer under the old one, for every node of the tree; assigning the own uuid changes nothing, and assigning a uuid used by another node of the tree raises ValueError without any change. Storing a node, or a tree containing one, whose uuid is used by another node of the target tree raises ValueError without any change. Lookups with unknown uuids give None, the default, False or KeyError depending on the access.',
 ['inputs', 'histories'], 'for every set of uuids in a tree and every assigned, stored or looked up uuid',
 'Tests use random uuid values and one collision; special integer values and collisions through subtrees are not sampled.',
 [B+'reference.py'], [('uuid setter', B+'reference.py Reference.uuid'), ('lookup', B+'reference.py NodeIndex, Reference.node'), ('collision check', B+'reference.py Reference.__setitem__')],
 ['node.uuid', 'node.node()', 'node.index'])

prop('C11', 'Nodespaces and attributes are kept separate from regular children',
 'On nodes with nodespaces, string keys starting and ending with two underscores address nodespaces: setting, getting and deleting them never changes the regular children, the children namespace is the node itself, a set nodespace gets the key as name and the node as parent, and absent ones raise KeyError. All other keys, also non string ones, address regular children and never change nodespaces. The attributes of a node are one object created once per node with the node as parent, share nothing with attributes of other nodes, accept non node values, and can be reached by attribute access when enabled.',
 ['inputs', 'histories'], 'for every key, every prior content of children and nodespaces and every value',
 'Tests use a few fixed keys; the separation must hold for every key string and every prior content.',
 [B+'nodespace.py', B+'attributes.py'], [('key routing', B+'nodespace.py Nodespaces'), ('attributes', B+'attributes.py Attributes.attrs, NodeAttributes')],
 ['node["__name__"]', 'node.nodespaces', 'node.attrs'])

prop('C12', 'Aliasing is invertible and only translates keys',
 'For every aliaser, un-aliasing an aliased key gives the key back: prefix, suffix (also empty or unset ones) and both combined for all strings, dictionary aliasers for all mapped values with unambiguous mappings, chains of aliasers for all keys each link can alias. Un-aliasing a key without the prefix or suffix raises KeyError; strict dictionary aliasers raise KeyError for unknown keys in both directions, non strict ones pass them through. A node with aliaser looks up, stores and deletes exactly the child of the un-aliased key, iterates the aliased keys in order (keys unknown to an enumerable aliaser are left out, otherwise the KeyError is raised), and reports KeyErrors for the key as given by the caller.',
 ['inputs'], 'for every prefix, suffix, key string, alias mapping, chain of aliasers and node content',
 'Tests use one prefix and one suffix; empty, overlapping and unusual strings and arbitrary chains are not covered.',
 [B+'alias.py'], [('aliasers', B+'alias.py DictAliaser, PrefixAliaser, SuffixAliaser, AliaserChain'), ('key translation', B+'alias.py Alias')],
 ['aliaser.alias()', 'aliaser.unalias()', 'node[alias]', 'iter(node)'])

prop('C13', 'Caching is transparent and invalidation is precise',
 'A caching node returns for each key what the underlying lookup returned for it, asking the underlying lookup at most once until the key is invalidated, stored or deleted, after which it is asked again; absent keys raise KeyError and are not cached. Invalidating a key affects only that key and invalidating without key affects all keys. Default invalidation deletes the children (KeyError for an absent key), invalidation of volatile storages drops only stored values: keys which exist but are not stored are ignored and unknown keys raise KeyError without effect.',
 ['inputs', 'histories'], 'for every underlying implementation, every cache content, every key and every sequence of operations',
 'Tests look at one key; staleness after any of the operations on any key needs a proof over all cache contents.',
 [B+'cache.py'], [('cache', B+'cache.py Cache'), ('invalidation', B+'cache.py Invalidate, VolatileStorageInvalidate')],
 ['node[key]', 'node.invalidate()'])

prop('C14', 'Factory children are created once, on demand, and fixed children are immutable',
 'A child factory node lists exactly its factory keys, in order; the first lookup of such a key creates the child with the factory, stores and returns it, every further lookup returns that same child, children that are already stored are never replaced, and unknown keys raise KeyError without creating anything. A fixed children node holds exactly the configured children in configured order, one instance each per parent, named and parented accordingly; setting and deleting children is refused and changes nothing.',
 ['inputs', 'histories'], 'for every set of factories, every content already stored and every sequence of lookups',
 'Tests use one factory mapping and one lookup order.',
 [B+'common.py'], [('lazy creation', B+'common.py ChildFactory'), ('fixed children', B+'common.py FixedChildren')],
 ['node[key]', 'iter(node)'])

prop('C15', 'Uuid aware nodes never end up sharing a uuid through copying',
 'Each uuid aware node gets its own uuid on creation. Deep copying gives the copied node a new uuid, and new uuids to all uuid aware nodes below it when recursive overwriting is enabled (the default), non node values being skipped; the original keeps all its uuids. Shallow copying is refused with an error. Assigning uuids without override only touches uuid aware nodes which have none.',
 ['inputs'], 'for every tree of uuid aware, other nodes and plain values and all flag combinations',
 'Tests copy one small tree; arbitrary mixtures of nodes and values and flags are not covered.',
 [B+'common.py'], [('uuid assignment', B+'common.py UUIDAware')], ['node.uuid', 'node.deepcopy()', 'node.copy()', 'node.set_uuid_for()'])

prop('C16', 'Each successful change notifies exactly one matching lifecycle event',
 'On lifecycle nodes, creating, storing, deleting and detaching each notify exactly one event of the configured kind after the change took place, carrying the affected node, the parent and the name; a failing operation notifies nothing and a detached child does not additionally count as removed. Setting or deleting an attribute on lifecycle attributes notifies exactly one modification of the owning node. While notification is suppressed on the node, storing and deleting notify nothing, and the suppression state after any operation, failed detaching included, is what it was before.',
 ['inputs', 'histories', 'fault_sequences'], 'for every key, value, configured event class and every outcome of the underlying operation',
 'Tests observe a fixed sequence of successful operations and no failing ones.',
 [B+'lifecycle.py', 'src/node/events.py'], [('notification', B+'lifecycle.py Lifecycle, AttributesLifecycle')], ['zope event subscribers'])

prop('C17', 'Events reach exactly the bound subscribers, once, in binding order',
 'Dispatching a not suppressed event calls each subscriber bound to this event on this dispatcher when dispatching starts exactly once, in the order of binding, with exactly the dispatched arguments, and calls no other subscriber; subscribers changing bindings meanwhile do not affect the running dispatch. Binding the same subscriber twice binds it once and binding to an unknown event raises an error; unbinding removes exactly the given combination of event and subscriber, where omitting one or both means all. Dispatchers and classes do not share bindings or registered events with siblings or base classes.',
 ['inputs', 'histories'], 'for every set of events, subscribers, arguments and every history of registering, binding and unbinding',
 'Tests bind one or two subscribers; order, multiplicity and isolation over arbitrary histories are not covered.',
 [B+'events.py'], [('registry', B+'events.py Events.register_event/bind/unbind'), ('dispatch', B+'events.py Events.dispatch'), ('class events', B+'events.py event_dispatcher_metclass_hook')],
 ['bind()', 'unbind()', 'dispatch()'])

prop('C18', 'Event suppression is scoped, nestable and thread local',
 'Inside a suppression context for all events no event is dispatched, inside one for given events exactly these events are not dispatched, contexts nest in any combination, and the context yields its nesting depth. After leaving a context, normally or by an error, suppression is exactly what it was when entering; creating a context object without entering it has no effect. Suppression in one thread never affects other threads, and dispatching and suppressing work in every thread.',
 ['inputs', 'histories', 'schedules'], 'for every nesting of contexts, every set of suppressed events, every way of leaving and every thread',
 'Tests run in the main thread with one or two nestings.',
 [B+'events.py'], [('suppression', B+'events.py suppress_events'), ('check', B+'events.py Events.dispatch')], ['suppress_events()', 'dispatch()'])

prop('C19', 'Event attributes store per object and dispatch on changes only',
 'Reading an event attribute gives the value last set on this object, or its default; on the class it gives the default. Setting stores the value in the configured storage and then dispatches the attribute event with the new value exactly once, to the decorator subscribers first and then to the bound ones, if and only if the value differs from the previous one or dispatching always is configured. Deleting removes the value and dispatches the event with the unset marker; decorator subscribers are called for changes of their own attribute only, and other attributes and objects are not affected.',
 ['inputs', 'histories'], 'for every value, default, storage and every history of setting and deleting',
 'Tests set a few integers; values, equal-but-different objects and several attributes and objects are not covered.',
 [B+'events.py'], [('descriptor', B+'events.py EventAttribute'), ('decorator subscribers', B+'events.py _subscribers, Events.dispatch')], ['obj.attr', 'subscribers'])

prop('C20', 'Fallback lookup is used for missing keys only and finds the nearest hit',
 'Looking up an existing child of a fallback node gives that child. For a missing key the lookup gives the value found at the same relative path below the fallback child of the nearest ancestor where such a value exists; if there is none (also when configured fallback children are missing or are no nodes) it raises KeyError for the requested key. Lookups never modify the tree, and work the same in every thread and after failed lookups.',
 ['inputs', 'histories', 'schedules'], 'for every tree, every set of ancestors with fallback children (which have no own nested fallbacks), every missing key',
 'Tests use one tree with two languages in the main thread.',
 [B+'fallback.py'], [('fallback', B+'fallback.py Fallback, _to_root, _to_leaf, fallback_processing')], ['node[key]'])

prop('C21', 'The tree lock gives mutual exclusion per tree and is always released',
 'Locks created for any nodes of the same tree, by any thread at any time, are one and the same reentrant lock, so at most one thread at a time is inside a locked section of the tree. A locked method is called once with its arguments, gives its result or error unchanged, and the lock is released afterwards in both cases, as it is after leaving a lock context.',
 ['schedules', 'inputs', 'fault_sequences'], 'for every interleaving of threads creating and using locks, every node position in the tree and every way of leaving',
 'Tests use a mock lock in one thread; interleavings are not explored.',
 ['src/node/locking.py'], [('lock creation', 'src/node/locking.py TreeLock.__init__'), ('decorator', 'src/node/locking.py locktree')], ['TreeLock', 'locktree'])

prop('C22', 'Serialized data deserializes to an equal structure',
 'Deserializing what was serialized gives an equal structure for any nesting of lists, string keyed dictionaries, nulls, booleans, integers, strings, uuids, the unset marker, importable classes and functions, and for trees of importable node classes: same classes, names, order of children and attributes. With a given root the node gets added as its child. Simple mode output contains name, children and attributes, and class names if and only if requested.',
 ['inputs'], 'for every tree shape, nesting and values within the supported types',
 'Tests round trip three or four hand written values.',
 ['src/node/serializer.py'], [('encoder', 'src/node/serializer.py NodeEncoder'), ('decoder', 'src/node/serializer.py NodeDecoder'), ('registered callbacks', 'src/node/serializer.py serialize_node, deserialize_node, serialize_node_attributes, deserialize_node_attributes')],
 ['serialize()', 'deserialize()'])

prop('C23', 'Text codec encodes and decodes nested structures inversely without side effects',
 'Encoding turns every text in any nesting of lists, tuples, dictionaries and nodes into bytes of the given encoding, decoding turns every valid byte string back into the original text, leaving other values as they are; results are new structures and the input is not modified. Undecodable bytes are left as they are in soft mode and raise UnicodeDecodeError otherwise. Unicode aware nodes decode byte string keys on get, set and delete and byte string values on set, so that byte and text form of a key address the same child.',
 ['inputs'], 'for every nesting and every text, byte string and other leaf value',
 'Tests encode a few literals.',
 ['src/node/utils.py', B+'common.py'], [('codec', 'src/node/utils.py StrCodec'), ('unicode aware mapping', B+'common.py UnicodeAware')], ['encode()', 'decode()', 'node[key]'])

prop('C24', 'Attribute access wrappers and reverse mappings are faithful views',
 'Attribute and item access on an attribute access wrapper read, store and delete exactly the equally named item of the wrapped mapping, a missing item raising AttributeError (attribute read) or KeyError (item access). Nodes giving attribute access to children look up a child only for names which are no regular attributes and raise AttributeError for missing ones. A reverse mapping lists, counts and looks up the wrapped mapping with keys and values exchanged, in the order of the wrapped mapping, finding the first key having an equal value.',
 ['inputs'], 'for every content of the wrapped mapping and every name or value looked up',
 'Tests use small literal contents without duplicates or misses on all accessors.',
 ['src/node/utils.py', B+'common.py'], [('attribute access', 'src/node/utils.py AttributeAccess'), ('children as attributes', B+'common.py GetattrChildren, AsAttrAccess'), ('reverse mapping', 'src/node/utils.py ReverseMapping')],
 ['getattr/setattr', 'wrapper[key]', 'ReverseMapping'])

prop('C25', 'Per instance computed properties are computed once per instance',
 'A per instance computed property calls its function at most once for an object, whatever the computed value is, with this object, returns the identical value on every access, and never shares values between objects or between differently named properties of an object. If the function fails, the error propagates and nothing is remembered, so that the next access computes again.',
 ['inputs', 'histories'], 'for every computed value (None and false values included), every sequence of accesses on any number of objects',
 'Tests access one property on one object.',
 ['src/node/utils.py'], [('instance_property', 'src/node/utils.py instance_property')], ['obj.property'])

prop('C26', 'The tree representation lists every node and value exactly once, in order',
 'The tree representation of a node consists of one line for the node and, below it, indented by one step more, the complete representation of each child node and one key-value line for each other child, in child order for ordered nodes and sorted by the text of the key for unordered ones. It uses the given prefix for indenting throughout and does not modify the tree.',
 ['inputs'], 'for every tree shape and depth, mixture of nodes and values, indent and prefix',
 'Tests print a few fixed trees.',
 [B+'nodify.py'], [('treerepr', B+'nodify.py Nodify.treerepr/noderepr')], ['treerepr()', 'printtree()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
