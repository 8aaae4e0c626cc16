#!/usr/bin/env python3
"""Writes ../properties.jsonl"""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Every in-place change of a persistent container is registered for commit',
     """Whenever an operation of PersistentDict, PersistentList, PersistentSet or BTree changes
     stored contents in place, each persistent object whose contents changed (each node, for a
     BTree) has been registered as changed with its connection by the time the operation returns
     or raises.""",
     ['inputs', 'fault_sequences'], 'every operation, every path through it, with any call of '
     'foreign code (comparisons, hashing, iterating an argument, loading a node) raising',
     'Unit tests look at contents without a connection, or at a few operations that succeed; '
     'whether the change is registered matters only after a commit and reload.',
     ['durus/persistent_dict.py', 'durus/persistent_list.py', 'durus/persistent_set.py', 'durus/btree.py'],
     [('_p_note_change before the mutation', 'container methods')],
     [('data / items / nodes', 'stored contents', 'container slots')])
prop('C02', 'Attribute access of persistent objects loads, records reads and notes changes',
     """Reading, setting or deleting an ordinary attribute of a persistent object first loads the
     state of an unloaded object; a read by an object of a connection is recorded as an access in
     the current transaction, and a set or delete registers the object as changed before the value
     is altered. The names exempt from this are exactly those starting with _p_ and the fixed
     special names, the same ones in the C and the Python implementation.""",
     ['inputs', 'histories'], 'every attribute name, every object status, with or without connection',
     'Tests use a handful of attribute names, and run only one of the two implementations.',
     ['durus/persistent.py', 'durus/_persistent.c'],
     [('PersistentBase.__getattribute__, __setattr__', 'durus/persistent.py'),
      ('pb_getattro, pb_setattro, load_triggering_name', 'durus/_persistent.c')],
     [('_p_status', 'UNSAVED, SAVED or GHOST', 'PersistentBase'),
      ('_p_serial', 'last transaction of access', 'PersistentBase')])
prop('C03', 'A persistent container never shares its internal storage',
     """The built-in dict, list or set in which a PersistentDict, PersistentList or PersistentSet
     keeps its contents belongs to it alone: it is never an object that a caller passed in or that
     another container holds (after construction, copying or combining through its methods), and no
     method other than those that give its state for pickling returns or yields it. Loading the state of a Persistent object likewise
     copies the loaded dictionary.""",
     ['programs', 'inputs'], 'every method and every argument',
     'Tests compare contents right after the call; sharing shows only when one of the sharers '
     'changes later, and then as an unregistered change.',
     ['durus/persistent_dict.py', 'durus/persistent_list.py', 'durus/persistent_set.py', 'durus/persistent.py'],
     [('fresh dict/list/set made for each container', 'constructors, copy() and operators')])
prop('C04', 'A successful commit stores every changed and new object exactly once',
     """A commit that returns has stored, in one storage transaction, every object registered as
     changed and every new object found by serializing them, each under its own oid with a record
     of its own state; only after the storage has accepted the transaction are the changes
     forgotten and the transaction number advanced (once). A commit without changes synchronises
     with the storage instead.""",
     ['programs', 'fault_sequences'], 'every set of changed objects and every failing storage call',
     'Tests commit small graphs on working storages; they never fail a storage call in the middle.',
     ['durus/connection.py'], [('commit', 'durus/connection.py')],
     [('changed', 'objects registered as changed', 'Connection')])
prop('C05', 'A commit that fails can be corrected and repeated without losing objects',
     """When a commit fails at any point, the failure reaches the caller, the changed objects stay
     registered as changed, and every new object that this commit gave an oid, and no other
     object, is put back as it was: no oid, no connection, unsaved and not in the cache.""",
     ['fault_sequences', 'programs'], 'every point of failure: an object that cannot be pickled, '
     'a storage error, a conflict',
     'Tests fail a commit at one or two points and do not commit again.',
     ['durus/connection.py', 'durus/serialize.py'], [('commit, exception clauses', 'durus/connection.py')])
prop('C06', 'Abort and synchronisation discard everything that is out of date',
     """abort() unloads every object registered as changed, forgets the changes and begins a new
     transaction; abort(), a commit without changes, and pack() (which aborts first) fetch the
     storage's list of changed oids, unload every cached object among those and the invalidations
     still pending, and leave no invalidation pending.""",
     ['histories', 'schedules'], 'every set of changes and invalidations',
     'Tests have at most one or two invalidations, mostly none.',
     ['durus/connection.py'], [('abort, _sync, pack', 'durus/connection.py')],
     [('invalid_oids', 'oids known to be out of date', 'Connection')])
prop('C07', 'Conflicting reads and writes are detected',
     """When the storage reports, during a commit or a load, oids that others have changed, the
     commit fails with WriteConflictError, or the load with ReadConflictError, if any such object
     was accessed or changed in this transaction, and each of those stays marked as out of date;
     cached objects among them not used are unloaded. While invalidations are pending, no commit
     starts and no out-of-date object is loaded, and a missing record is reported as ReadConflictError.""",
     ['histories', 'schedules'], 'every set of reported oids, every cached, accessed or changed object',
     'Tests have two connections and one or two objects; the property is about every interleaving.',
     ['durus/connection.py', 'durus/client_storage.py'],
     [('_handle_invalidations, get_stored_pickle, load_state, commit', 'durus/connection.py')])
prop('C08', 'One live object per oid, and the cache keeps what is in use',
     """A connection resolves an oid to the object it already holds for it, wherever the oid comes
     from (get, a reference in loaded state that names the object's class, the crawler), registers every object it makes before
     handing it out, and never overwrites the state of an object that is loaded. Shrinking the
     cache unloads only objects that are saved and were not used in the current transaction, and
     the cache's dictionary never returns a dead or deleted entry or drops a live one.""",
     ['histories', 'programs'], 'every sequence of loads, collections and cache shrinks',
     'Tests do not reach the timings of garbage collection nor large caches.',
     ['durus/connection.py', 'durus/serialize.py', 'durus/_persistent.c'],
     [('persistent_load', 'durus/serialize.py'), ('Cache, ObjectDictionary, Connection.get', 'durus/connection.py')])
prop('C09', 'A record holds the class, whole state and exact references of its object',
     """The record made for an object contains its class and its current state, pickled
     independently of whatever was pickled before, and lists exactly the persistent objects
     referred to by that state, apart from itself. A new object met while pickling is given an oid and
     connection once and is serialized in the same commit; a reference to an object of another
     connection is refused.""",
     ['inputs', 'programs'], 'every object graph and every order of serialization',
     'Tests pickle a few graphs; memo and reference leaks need long sequences through one writer.',
     ['durus/serialize.py', 'durus/_persistent.c'], [('ObjectWriter', 'durus/serialize.py')])
prop('C10', 'A storage transaction is on stable storage before it is reported done',
     """When end() of FileStorage, FileStorage2 or SqliteStorage returns, all records stored since
     begin() have been written to the file and then forced to stable storage (flush and fsync, or
     the database's commit), nothing is written to the file afterwards, and only then can loads
     see them. A packed or newly built file is likewise forced to stable storage before it
     replaces the old one.""",
     ['crash_points', 'histories'], 'every transaction and every crash after end()',
     'No test loses power; the page cache hides a missing or misplaced fsync.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py', 'durus/shelf.py', 'durus/file.py'],
     [('end, Shelf.store, File.write/flush/fsync', 'storages')])
prop('C11', 'A transaction cut short by a crash is never taken for a complete one',
     """While a transaction is being written to a FileStorage, the length in its header does not
     fit the data until everything is written; in a FileStorage2, its terminator is written after
     all its records. Opening the file accepts a transaction only when it has been read whole,
     and a new file is written so that its header comes before anything else.""",
     ['crash_points'], 'every prefix of the writes of a transaction',
     'Tests do not stop a write in the middle at every point.',
     ['durus/shelf.py', 'durus/file_storage2.py'],
     [('Shelf.store, read_transaction_offsets', 'durus/shelf.py'),
      ('_write_transaction, _build_index', 'durus/file_storage2.py')])
prop('C12', 'A storage transaction that fails leaves nothing behind',
     """If a storage's end() fails, the failure is raised to the caller, the file or database is
     returned to where it was before the transaction, and neither the index of records nor the list
     kept for a running pack mentions any of its records; begin() discards the records of a transaction that was
     not ended, and a record that store() refuses is not kept.""",
     ['fault_sequences'], 'a failure at every call that may fail during end()',
     'Tests do not make writes, fsync or commit fail.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py', 'durus/shelf.py', 'durus/storage.py'],
     [('begin, store, end', 'storages')])
prop('C13', 'A storage file is exclusively locked before it is written',
     """A file opened for writing by FileStorage or FileStorage2 is exclusively locked, failing
     instead of waiting, before the file's contents are read into an index, and the lock is kept
     until the file is closed; every write or truncation of it happens with the lock held, a
     storage opened read-only is never locked, written, truncated or packed, and renaming a file
     leaves it locked.""",
     ['schedules', 'configurations'], 'every process schedule and every open mode',
     'Tests run one process.',
     ['durus/file.py', 'durus/shelf.py', 'durus/file_storage.py', 'durus/file_storage2.py'],
     [('File.obtain_lock', 'durus/file.py')])
prop('C14', 'Opening a damaged file repairs it only when asked, and only its tail',
     """Opening a file that ends in a malformed transaction fails, with the file untouched, unless
     repair is requested; with repair the file is cut exactly where that transaction starts, so
     every complete transaction before it is kept. No other damage leads to a truncation, and
     records of a malformed transaction are not served.""",
     ['inputs', 'crash_points'], 'every file content',
     'Tests damage a file at one or two places.',
     ['durus/shelf.py', 'durus/file_storage2.py'],
     [('read_transaction_offsets', 'durus/shelf.py'), ('_build_index', 'durus/file_storage2.py')])
prop('C15', 'Packing keeps every record committed while the pack runs',
     """Every record committed between two steps of an incremental pack is carried into the packed
     storage with everything it refers to: from the moment a pack begins until it is
     complete, each successful commit adds its oids to the pack's work, and the pack finishes that work and switches
     over in one step. A second pack does not start while one is running or a
     transaction is pending.""",
     ['schedules', 'histories'], 'every interleaving of commits with pack steps',
     'Tests interleave at a few places.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py'],
     [('pack_extra', 'get_packer, end')],
     [('pack_extra', 'oids committed since the pack began', 'storages')])
prop('C16', 'A crash during a pack never loses the storage',
     """A pack writes a separate file and the storage's own file name always leads to a complete
     storage: the name is changed over only by one atomic rename of a packed file that is complete
     and forced to stable storage, the previous file is kept under another name first, and a pack
     file left by an earlier crash is emptied before use.""",
     ['crash_points'], 'a crash before or after each file operation of a pack',
     'No test stops a pack between its file operations.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/file.py'],
     [('packer, _packer, File.link, File.rename', 'storages')])
prop('C17', 'Objects removed by a pack are reported to every connection',
     """Each record that a pack removes, and none that it keeps, is reported by the storage's next sync(),
     exactly once, so that no connection continues to use the removed object; an oid that is still
     waiting to be reported is not given to a new object.""",
     ['histories', 'schedules'], 'every storage content and every interleaving of commits with a pack',
     'Tests check one removed object.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py'],
     [('invalid, sync', 'storages')])
prop('C18', 'A storage never hands out an oid that is in use',
     """new_oid() never returns an oid that the storage holds a record for or that it has handed out
     before in this session: its counter always moves on with each oid and starts, when a file is
     opened or built from records, above every stored oid; oids reused from holes are known to be free.
     The client returns oids to its pool only when the server
     was told that nothing is stored.""",
     ['histories', 'configurations'], 'every storage content and every sequence of calls',
     'Tests allocate a few oids from fresh storages.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py', 'durus/storage.py',
      'durus/client_storage.py', 'durus/shelf.py'],
     [('new_oid', 'storages')])
prop('C19', 'What is written to a file or record is what is read back',
     """For every binary layout (object records, FileStorage transactions and offset map,
     FileStorage2 header, index and transactions) the fields written, in order, with their widths and
     length prefixes, are those that the reader expects, and lengths count exactly the bytes that
     follow.""",
     ['inputs'], 'every record and every file',
     'Tests round-trip through a reader and writer with small values, so that a width or a length that agrees '
     'only there passes.',
     ['durus/serialize.py', 'durus/shelf.py', 'durus/file_storage2.py', 'durus/utils.py'],
     [('pack_record/unpack_record', 'durus/serialize.py'), ('int and str codecs', 'durus/utils.py')])
prop('C20', 'Client and server agree on the protocol on every path',
     """For every request that the client sends, the server reads exactly the bytes the client
     writes for it, in order, and the client reads exactly the bytes that the server answers, for
     every outcome (found, missing, out of date, conflict, empty), so that after a request that ends normally or
     with a conflict or missing-key error both sides are ready for the next one. Every status the server sends is one that the client
     distinguishes.""",
     ['histories', 'inputs'], 'every sequence of requests and outcomes',
     'Tests use some request sequences; an outcome in the middle of a batch leaves the stream shifted.',
     ['durus/client_storage.py', 'durus/storage_server.py'],
     [('ClientStorage methods', 'durus/client_storage.py'), ('handle_* methods', 'durus/storage_server.py')])
prop('C21', 'The server acknowledges a commit only when it is done, and tells all others',
     """The server reports success for a commit only after the storage has ended the transaction
     normally, and reports a conflict only for a ConflictError; every other client has the stored
     oids among its invalidations before that answer is sent, even when the answer cannot be
     delivered. Every record of a request is stored, between one begin and one end, and none
     under an oid that is reserved for another client: an oid is recorded as reserved before it is
     sent and stays reserved until it is used in a commit.""",
     ['schedules', 'fault_sequences'], 'every set of clients and every failing call',
     'Tests have one or two clients that do not fail.',
     ['durus/storage_server.py'], [('handle_C', 'durus/storage_server.py')],
     [('_Client.invalid', 'oids the client must be told of', 'StorageServer')])
prop('C22', 'The server never serves a record that the client must first invalidate',
     """A load, single or in bulk, by a client with an invalidation of that oid not yet delivered is answered as
     out of date, and never with a record. A client's list of invalidations is emptied only after it has been sent
     to that client, the storage's own invalidations are added to every client's list before a
     list is sent, and an oid that some client must still invalidate is not given to a new object.""",
     ['schedules', 'histories'], 'every interleaving of requests of several clients',
     'Tests have one or two clients and few interleavings.',
     ['durus/storage_server.py'], [('_send_load_response, handle_C, handle_S, _new_oids', 'durus/storage_server.py')])
prop('C23', 'A failing or malicious client cannot stop the server',
     """An exception raised while a client's request is handled, or while a connection is accepted,
     ends at most that client's connection: it is removed everywhere and closed, and the server
     goes on serving the others; only the quit request ends the server. An incremental pack is advanced only through the object
     that the storage supplied, until it is exhausted.""",
     ['inputs', 'fault_sequences'], 'every byte sequence a client may send, every socket failure',
     'Tests send well-formed requests.',
     ['durus/storage_server.py'], [('serve, handle', 'durus/storage_server.py')])
prop('C24', 'Every storage implements the whole storage interface',
     """Each storage class implements every operation of the storage interface, accepting the
     arguments that connections, the server and the tools use, and returning what those need (a
     packer that can be iterated or None, a sequence of oids from sync, oid and record pairs).
     A storage file is recognised by its own format and opened with the class for that format.""",
     ['configurations'], 'every storage class and every caller',
     'Tests exercise some storages with some callers.',
     ['durus/storage.py', 'durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py',
      'durus/client_storage.py', 'durus/__main__.py'],
     [('Storage', 'durus/storage.py'), ('get_storage', 'durus/__main__.py')])
prop('C25', 'Socket addresses clean up after themselves',
     """Binding a Unix domain socket happens under the umask and gives the socket the owner and group that were
     asked for, restores the process umask on every path, and removes an existing file only if it is an
     empty one on which nothing accepts a connection; a connect that is refused (or finds no
     socket) yields None, any other failure is raised, and a socket that is returned is connected. Every
     kind of address can be shown, configured and closed, and closing removes only the socket's own
     file.""",
     ['fault_sequences', 'configurations'], 'every failing call and kind of address',
     'Tests bind fresh sockets that work.',
     ['durus/storage_server.py', 'durus/systemd_socket.py'],
     [('bind_socket, get_connected_socket, close', 'durus/storage_server.py')])
prop('C26', 'The C extension neither leaks, double-frees nor follows null',
     """On every path of the functions and type slots of the C extension (the initialisation of the
     module aside), each reference that a function creates is released,
     stored or returned exactly once, no borrowed reference is released or returned, the result of every call that
     can fail is checked before it is used, and failure is returned exactly when an exception is
     set. The garbage collector is told of every owned object field.""",
     ['inputs', 'fault_sequences'], 'every path, including failure of each allocation or call',
     'Tests do not make allocation or interpreter calls fail and do not measure references.',
     ['durus/_persistent.c'], [('reference handling', 'durus/_persistent.c')])
prop('C27', 'BTree structure operations never lose or duplicate an item',
     """Every structural operation on BTree nodes (split, merge, rotation, deletion in a leaf or an
     inner node) keeps each item and child node it moves exactly once among the nodes involved,
     in order, and keeps the number of children one above the number of items in inner nodes, the
     number of items within the bounds of the minimum degree, and the count of every node equal
     to the number of items below it, also when the key to delete is not there; whether a node
     exists is never decided by whether it is empty.""",
     ['inputs'], 'every tree and every minimum degree',
     'Tests use some trees with small degrees; the rare merges and rotations depend on shape.',
     ['durus/btree.py'], [('BNode.insert_item, split_child, delete', 'durus/btree.py')])

prop('C28', 'Search and iteration of a BTree find each item once, in order',
     """On a BTree whose nodes are in order, searching for a key finds its item exactly if it is
     there; iteration forwards or backwards, from a key, backwards from a key and over a range (with
     either end included or not, forwards or backwards), yields exactly the items asked for,
     each once and in order; get(), [], in, setdefault(), len() and the least and greatest item
     answer accordingly, whatever the values are.""",
     ['inputs'], 'every tree, every minimum degree, every key or pair of keys, there or not',
     'Tests iterate over some trees; an error at the edge of a node needs a key in the right place.',
     ['durus/btree.py'], [('BNode.search, iter_from, iter_backward_from; BTree.items_range',
                           'durus/btree.py')])

prop('C29', 'The state of an object is moved whole, and nothing of it stays behind',
     """The state that a persistent object gives to be stored has all its data attributes: the
     instance dictionary and every slot, under whatever name and in whatever form a class of it
     declares the slot, that has a value (of a subclass of Persistent: the instance dictionary),
     and giving it does not change the object. Setting a state removes every old attribute and sets
     exactly those of the state; making an object a ghost leaves none.
     A ComputedAttribute keeps no state: None is stored, loading needs no record, invalidate()
     forgets the value and registers the change, and get() calls `compute` only where no value is
     remembered, remembers what it returned, and registers no change."""
     , ['inputs', 'histories'], 'every class, every set of attributes, before and after',
     'Tests use a few classes; an attribute that survives a ghost or a load, or that is left out of '
     'a record, shows only when it is missing from the next state or read after it was unloaded.',
     ['durus/persistent.py'], [('PersistentObject.__getstate__, __setstate__, _p_gen_data_slots, '
                                '_p_set_status_ghost; Persistent; ComputedAttribute',
                                'durus/persistent.py')])

prop('C38', 'The functions that search a storage see every record',
     """For every storage content: gen_referring_oid_record(storage, oid) gives exactly the records
     that refer to the oid; gen_oid_class exactly the oids whose class is asked for (all, if none
     is); gen_every_instance exactly the objects of the classes asked for; get_census counts every record once, under its class;
     get_reference_index has, for every oid, all the oids of the records that refer to it;
     touch_every_reference marks as changed every object whose pickled class or state has one of the
     words, and none whose record has none."""
     , ['inputs'], 'every content of a storage, every class, oid or word asked for',
     'Tests search small storages in which the bytes of one oid never straddle two others and no '
     'record is of an unusual class; schema upgrades and repairs rely on nothing being left out.',
     ['durus/storage.py', 'durus/connection.py'],
     [('gen_referring_oid_record, gen_oid_class, get_census, get_reference_index', 'durus/storage.py'),
      ('gen_every_instance, touch_every_reference', 'durus/connection.py')])

prop('C33', 'Compact arrays and integer sets keep each element in its own place',
     """ByteArray, BitArray, WordArray and IntArray (durus.utils) give back, for every size, width of a number and
     index within the array, the element last stored there: an access goes to the place of its own index and no
     other, within the bytes of the array in the file, and first puts the file at that place (also while the array is
     iterated over, whatever else uses the file in between). Only indexes outside the array are refused, with
     IndexError; Bit-, Word- and IntArray count negative indexes from the end. Numbers are decoded as they were encoded,
     the blank word is the word of no number that may be stored, and a header is read back as it was written. An IntSet
     makes room for a number before it sets its bit, and looks at no bit beyond its size.""",
     ['inputs', 'histories'], 'every size, width, index and order of accesses',
     'Tests sample a few sizes and read in order; an error needs a size that is no multiple of eight, a width at a '
     'boundary, the last index, or two uses of the file that interleave.',
     ['durus/utils.py'], [('ByteArray, BitArray, WordArray, IntArray, IntSet', 'durus/utils.py')])

# properties this family cannot decide
prop('C30', 'A BTree behaves as an ordered map',
     """A BTree answers every lookup, range and ordered iteration as a sorted map with the same
     history would.""", ['histories', 'inputs'], 'every history of operations',
     'Tests sample histories.', ['durus/btree.py'], [('BTree', 'durus/btree.py')])
prop('C31', 'Concurrent transactions are serializable',
     """The committed transactions of all connections have the effect of some serial order.""",
     ['schedules', 'histories'], 'every interleaving of connections',
     'Tests sample schedules.', ['durus/connection.py', 'durus/storage_server.py'],
     [('conflict detection', 'durus/connection.py')])
prop('C32', 'Every picklable state survives a commit and reload unchanged',
     """The state loaded for an object equals the state that was committed last.""",
     ['inputs'], 'every state', 'Tests sample states.', ['durus/serialize.py'], [('get_state', 'durus/serialize.py')])
prop('C34', 'A pack keeps exactly the reachable records',
     """After a pack the storage holds the records reachable from the root and no others.""",
     ['inputs', 'histories'], 'every object graph', 'Tests sample graphs.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py'], [('packer', 'storages')])
prop('C35', 'Persistent containers behave like the built-in ones',
     """Each operation of PersistentDict, PersistentList and PersistentSet gives the result and error that
     the built-in type would.""", ['inputs'], 'every operation and argument', 'Tests sample arguments.',
     ['durus/persistent_dict.py', 'durus/persistent_list.py', 'durus/persistent_set.py'],
     [('delegation to the built-in', 'containers')])
prop('C36', 'The cache stays near its target size',
     """After a transaction the number of loaded objects returns to about the configured cache size,
     the least recently used being unloaded first.""", ['histories'], 'every access pattern',
     'Tests sample patterns.', ['durus/connection.py'], [('Cache.shrink', 'durus/connection.py')])
prop('C37', 'Every incremental pack finishes',
     """An incremental pack terminates and each step takes bounded work, even while commits go on.""",
     ['schedules'], 'every rate of commits', 'Tests pack small storages.',
     ['durus/file_storage.py', 'durus/file_storage2.py', 'durus/sqlite_storage.py'], [('packer', 'storages')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
