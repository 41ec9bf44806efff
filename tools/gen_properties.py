#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
C = "crates/bonsaidb-core/src/"; L = "crates/bonsaidb-local/src/"; S = "crates/bonsaidb-server/src/"
CL = "crates/bonsaidb-client/src/"; F = "crates/bonsaidb-files/src/"; M = "crates/bonsaidb-macros/src/"

p("C01", "Keys round-trip, and their bytes sort the way their values sort",
  "For every supported key type (integers, variable-length integers, strings, byte strings, booleans, options, results, tuples, uuids, durations and timestamps, derived structs and enums), decoding an encoded key yields the original value, distinct values have distinct encodings, and comparing two encodings byte by byte gives the same order as comparing the values. This also holds for keys nested inside composite keys, the successor of a key is the next larger key or a reported overflow, and a prefix range over strings or bytes contains exactly the values that start with the prefix.",
  ["inputs"], "all values, and all pairs of values, of every key type and of compositions of them",
  "Unit tests compare hand-picked values per type; order preservation is a statement about all pairs and breaks at lengths, signs, nulls and boundaries that are not listed there.",
  [C+"key.rs", C+"key/time.rs", C+"key/varint.rs", C+"connection.rs", M+"lib.rs"],
  [("KeyEncoding::as_ord_bytes / Key::from_ord_bytes per type", C+"key.rs"),
   ("CompositeKeyEncoder/Decoder length suffixes and null escaping", C+"key.rs"),
   ("IntoPrefixRange::to_prefix_range", C+"key.rs"), ("derive(Key)", M+"lib.rs")],
  observe=["encoded bytes", "decoded value"])
p("C02", "Decoding untrusted bytes or text fails cleanly instead of panicking",
  "Decoding arbitrary bytes as any key type, document id, identifier, timestamp, duration or protocol value, or parsing arbitrary text as one, either yields a value or returns an error: it never panics, aborts or hangs. A value that decodes re-encodes to something that decodes to the same value.",
  ["inputs"], "all byte strings and texts given to each decoder, including truncated, extended and mutated valid encodings",
  "The tests decode what was just encoded; the space of malformed encodings is unbounded and is what a remote peer or a damaged file supplies.",
  [C+"key.rs", C+"key/time.rs", C+"key/varint.rs", C+"key/deprecated.rs", C+"document/id.rs", C+"schema/names.rs", C+"connection.rs", C+"networking.rs"],
  [("length and bounds checks in CompositeKeyDecoder", C+"key.rs"), ("from_ord_bytes length checks", C+"key.rs"),
   ("DocumentId::try_from / FromStr limits", C+"document/id.rs"), ("names parsing", C+"schema/names.rs")])
p("C03", "Document writes behave like a map guarded by revisions",
  "In every history of inserts, updates, overwrites and deletes on a collection, the stored documents are exactly those of a reference map: inserting an existing id, or updating or deleting with a header that is not the stored one, fails with a document conflict (or not-found) and changes nothing, while overwriting always succeeds and creates the document if needed. Every successful write that changes the contents yields a header whose revision number is one larger than before and whose hash identifies the contents, automatically assigned ids never collide with a stored document, and everything still holds after the database is closed and reopened.",
  ["histories", "inputs"], "all sequences of write operations with any ids, contents (including empty and large) and header freshness, interleaved with reopening",
  "The suite performs a handful of fixed sequences; wrong revision handling, id assignment or conflict detection shows up only for particular orders such as delete, reinsert, stale update.",
  [L+"database.rs", C+"document/revision.rs", C+"document/header.rs", C+"transaction.rs", C+"connection.rs"],
  [("execute_insert/update/overwrite/delete", L+"database.rs"), ("Revision::next_revision", C+"document/revision.rs"),
   ("next_id for automatic keys", L+"database.rs")],
  state=[("document tree", "one versioned tree per collection", L+"database.rs")],
  observe=["operation results", "get after every operation"])
p("C04", "Listing, counting and fetching return exactly the matching documents",
  "For every set of stored documents, fetching one or several ids, listing (documents or headers only), and counting over any id range, with any sort order and limit, return exactly the stored documents that match: each once, in ascending or descending key order as requested, at most the limit, with current headers and contents; counting ignores order and limit. This holds for numeric, string and composite primary keys, after any history of writes, and after reopening.",
  ["inputs", "histories"], "all stored sets, ranges (open, closed, half-open, empty, inverted), orders, limits, id lists with missing and repeated ids",
  "Tests list a few documents with a few ranges; boundaries of ranges combined with order, limit and deleted documents are not enumerated.",
  [L+"database.rs", C+"connection.rs"],
  [("list/list_headers/count/get_multiple in LowLevelConnection", L+"database.rs"), ("Range and Bounds conversion", C+"connection.rs")],
  observe=["query results"])
p("C05", "A transaction applies completely or not at all",
  "A transaction of any number of operations over several collections either applies every operation, in order, with one result per operation, or fails with the error of the operation that could not be applied and leaves documents, views, keys in unique views, id assignment visibility and the transaction log exactly as they were. Later operations of a transaction see the effects of earlier ones, a document check in a transaction fails it if the document is missing or has another revision, and no reader ever observes part of a transaction.",
  ["histories", "inputs", "schedules"], "all transactions (mixed operations, repeated targets, a failing operation at any position, failures raised by a view's unique constraint or mapping error) on any prior state, and readers running at any time",
  "Rollback tests use one failing pair; the position and kind of the failing operation and what it already wrote vary freely.",
  [L+"database.rs", L+"views/mapper.rs", C+"transaction.rs"],
  [("apply_transaction_to_roots: rollback by dropping the roots transaction", L+"database.rs"),
   ("eager view mapping inside the transaction", L+"database.rs")],
  observe=["documents", "view queries", "list_executed_transactions"])
p("C06", "The transaction log records every change once, in order",
  "Every successful transaction that changes something appears exactly once in the executed transactions, under an id greater than all earlier ones, and lists exactly the documents and keys it changed with their collection or namespace and whether they were deleted; failed transactions never appear. The last transaction id is the id of the newest entry, and listing from any starting id with any limit returns the matching slice in order, also after reopening.",
  ["histories", "inputs"], "all histories of successful and failing document transactions and key-value changes, and all starting ids and limits",
  "Existing tests check one or two entries; completeness and exactness concern every history.",
  [L+"database.rs", L+"database/keyvalue.rs", C+"transaction.rs", C+"limits.rs"],
  [("changed_documents recorded as the transaction entry data", L+"database.rs"), ("list_executed_transactions", L+"database.rs")])
p("C07", "Views always equal the map function applied to the stored documents",
  "After any history of writes, a view query that asks for up-to-date data returns exactly the mappings obtained by applying the view's map function to every stored document, with no stale, missing or duplicated entry; this holds for lazy and eager views, for documents that start or stop emitting, change keys or emit several keys, for views added or given a new version on an existing database, and across close and reopen. A query that does not ask for an update returns the mappings of some earlier state, never a mixture for a single document, and a query that updates afterwards makes the next one current.",
  ["histories", "configurations"], "all histories of writes interleaved with queries under every access policy, reopening with the same or another view version",
  "View tests check a few inserts and one update; incremental maintenance fails only for particular transitions between map outputs.",
  [L+"views/mapper.rs", L+"views/integrity_scanner.rs", L+"views.rs", L+"database.rs", L+"tasks.rs"],
  [("invalidated entries tree and mapper", L+"views/mapper.rs"), ("IntegrityScanner on open", L+"views/integrity_scanner.rs"),
   ("update_view_if_needed", L+"tasks.rs")],
  state=[("view entries / document map / invalidated / versions trees", "materialised view", L+"views.rs")],
  observe=["view query results"])
p("C08", "Unique views never hold two documents for one key",
  "For every history, a write that would make two documents emit the same key in a unique view fails with a unique key violation naming the conflict and changes nothing, and a write that does not cause such a conflict is not rejected; keys released by updates or deletes become available at once, including within one transaction. At every moment each key of a unique view maps to exactly one document, through every write path and after reopening.",
  ["histories", "schedules"], "all histories of inserts, updates, overwrites, deletes and multi-operation transactions over colliding keys, and concurrent writers",
  "One test inserts and updates a duplicate; swapping keys, moving a key between documents, releasing it in the same transaction and rebuilding are not sampled.",
  [L+"views/mapper.rs", L+"database.rs"],
  [("unique check while mapping", L+"views/mapper.rs"), ("eager view update inside the transaction", L+"database.rs")])
p("C09", "View queries return exactly the requested slice, reduction and documents",
  "For every view contents and every query (all, one key, several keys, key range, key prefix, ascending or descending, any limit), the result is exactly the matching mappings in key order, never more than the limit; queries with documents return the same mappings plus exactly their source documents, and deleting the matching documents removes exactly those. Reducing returns the reduce function applied to all matching mappings and grouped reducing returns one such value per distinct key, equal to what a direct computation gives.",
  ["inputs", "histories"], "all view contents and all combinations of key filter, order, limit and access policy, for integer, string, optional and composite view keys",
  "Tests sample a few filters on a few documents; combinations of filter, order and limit and groups spanning many tree nodes are not covered.",
  [L+"database.rs", C+"connection.rs", C+"schema/view/map.rs", C+"schema/view.rs"],
  [("create_view_iterator", L+"database.rs"), ("reduce_in_view / grouped_reduce_in_view", L+"database.rs"),
   ("delete_docs_by_name", L+"database.rs"), ("QueryKey / Range serialisation", C+"connection.rs")])
p("C10", "The key-value store behaves like a map with conditional writes and counters",
  "In every history of key-value operations over any namespaces and keys, each operation returns what a reference map returns: set honours only-if-present and only-if-vacant and reports inserted, updated or not changed (or the previous value), get and get-and-delete return the current value with its exact type, delete reports whether the key existed, and increments and decrements follow the numeric type of the stored value with saturating or wrapping arithmetic as requested. Namespaces are independent of each other and of the absent namespace, and an operation that fails changes nothing.",
  ["histories", "inputs"], "all sequences of key operations, values (bytes, signed, unsigned, floating), amounts at numeric boundaries, namespaces and persistence settings",
  "Tests cover single operations with small numbers; type conversion, boundary arithmetic and their interaction with pending persistence are not enumerated.",
  [L+"database/keyvalue.rs", C+"keyvalue.rs", C+"keyvalue/implementation/set.rs", C+"keyvalue/implementation/increment.rs"],
  [("KeyValueState::perform_kv_operation", L+"database/keyvalue.rs"), ("Numeric arithmetic and validation", C+"keyvalue.rs")],
  state=[("dirty keys and keys being persisted", "not yet written changes that must stay visible", L+"database/keyvalue.rs")])
p("C11", "Key-value changes expire on time and survive a clean restart",
  "A key with an expiration is readable before its deadline and gone after it, a later set without keeping the expiration replaces or removes the deadline as requested, and the remaining deadline still applies after the database is reopened. Every key-value change made before the database is closed cleanly is present after reopening, whatever the configured persistence thresholds and however the last handle is dropped.",
  ["histories", "configurations", "schedules"], "all histories of sets, deletes and expirations under every persistence configuration, with closing at any moment",
  "Tests use two persistence settings and one expiration at a time; the persister and expirer run in background threads whose timing against operations and closing is not controlled by the tests.",
  [L+"database/keyvalue.rs", L+"config.rs", L+"tasks/task.rs"],
  [("KeyValuePersistence rules and background worker", L+"database/keyvalue.rs"), ("expiration order and background expirer", L+"database/keyvalue.rs"),
   ("KeyValueState::shutdown", L+"database/keyvalue.rs")])
p("C12", "Acknowledged transactions survive a crash, unacknowledged ones are atomic",
  "If the process dies at any instant, reopening the storage succeeds and shows a state in which every transaction acknowledged before the crash is present and every other transaction is either wholly present or wholly absent, as a prefix of the order in which they were issued. Views, unique constraints and the transaction log agree with the recovered documents, and the database accepts further writes.",
  ["crash_points", "histories"], "all points at which the process is killed during any history of transactions, and tails of the most recently written file that never reached the disk",
  "No existing test kills the process or damages a file tail; the crash point is a continuous choice.",
  [L+"database.rs", L+"storage.rs", L+"open_trees.rs", L+"views/integrity_scanner.rs"],
  [("transaction log written before acknowledgement", L+"database.rs"), ("recovery on open", L+"storage.rs"), ("integrity scan after reopen", L+"views/integrity_scanner.rs")],
  observe=["state after reopening"])
p("C13", "A backup restores to exactly the same databases",
  "Backing up a storage and restoring it into an empty one reproduces every database, with its schema, every document with its id and contents, every key-value entry with its value and expiration, for any collection names, ids, keys and namespaces. Views queried on the restored storage equal those of the original.",
  ["inputs", "histories"], "all contents of any number of databases, including unusual ids, keys and namespaces",
  "One test backs up a fixed small data set with friendly names.",
  [L+"storage/backup.rs"],
  [("backup / restore of each database", L+"storage/backup.rs"), ("BackupLocation implementation for a directory", L+"storage/backup.rs")])
p("C14", "Compaction never changes what the database contains",
  "Compacting a collection, the key-value store, a database or everything, at any time and also while writers and readers are active, never changes the result of any read: documents, headers, views, reductions, key-value entries and the transaction log answer as before, also for encrypted collections and after reopening. Writes made while compaction runs are not lost.",
  ["histories", "schedules", "configurations"], "all histories and all points at which compaction runs, alone or concurrently",
  "One smoke test compacts a small static database.",
  [L+"tasks/compactor.rs", L+"database.rs", L+"storage.rs"],
  [("Compactor jobs over the open trees", L+"tasks/compactor.rs")])
p("C15", "Encryption and compression are transparent, and nothing secret is on disk",
  "With a default or per-collection encryption key, with compression, with both or with neither, every operation returns the same results as without them, before and after reopening. When content is encrypted, its bytes and its view keys never appear in the storage's files, altered ciphertext is reported as an error rather than returned as data, and contents encrypted for one storage's vault cannot be read with another's.",
  ["configurations", "inputs", "histories"], "all combinations of encryption and compression settings, all contents, and all single alterations of stored ciphertext",
  "Tests check one encrypted document and one compressed document.",
  [L+"vault.rs", L+"storage.rs", L+"config.rs", L+"views.rs"],
  [("Vault encrypt/decrypt payloads", L+"vault.rs"), ("TreeVault", L+"vault.rs"), ("collection and view encryption key selection", L+"database.rs")])
p("C16", "Databases are isolated, and creating and deleting them is exact",
  "Operations on one database never change what another database returns (documents, views, keys, messages, transactions), creating an existing name fails unless asked to tolerate it with the same schema, invalid names are rejected without side effects, and the list of databases is exactly those created and not deleted. A deleted database is gone for good: recreating its name yields an empty database in documents, views, keys and transaction log, and deleting never touches anything outside that database.",
  ["histories", "inputs"], "all histories of creating, using, deleting and recreating databases with any names",
  "Tests create and delete once with plain names; state cached for a deleted name only shows when the name is used again.",
  [L+"storage.rs", L+"database.rs", L+"tasks.rs"],
  [("create_database_with_schema / delete_database / validate_name", L+"storage.rs"), ("database context and task state per name", L+"tasks.rs")])
p("C17", "Permission statements grant exactly what they say",
  "For every set of permission statements, an action on a resource is allowed exactly when some statement names a matching resource (with any wildcard segments) and allows that action or all actions under a matching name; nothing else is allowed. Merging permission sets allows exactly the union, the order of statements does not matter, and statements keep their meaning when stored and loaded again.",
  ["inputs"], "all statement sets, resource names and actions",
  "Tests evaluate a few literal statements.",
  [C+"permissions/mod.rs", C+"permissions/bonsai.rs", C+"connection.rs"],
  [("Permissions evaluation and merging", C+"permissions/mod.rs"), ("Session::allowed_to / check_permission", C+"connection.rs"), ("resource name constructors", C+"permissions/bonsai.rs")])
p("C18", "Every operation without permission is refused and has no effect",
  "For every operation of the storage and database interfaces and every permission set, the operation succeeds with its normal result if the session holds the permission that operation is documented to need on that resource, and is otherwise refused with a permission-denied error. A refused operation has no observable effect and reveals no stored data, and handles derived from a restricted session are restricted the same way.",
  ["inputs", "histories", "configurations"], "all operations, all permission sets over databases, collections, views, keys, topics and administrative actions",
  "Tests deny a few actions one by one; the matrix of operations, resources and grants is not sampled.",
  [L+"database.rs", L+"storage.rs", C+"connection.rs", C+"permissions/bonsai.rs", S+"dispatch.rs"],
  [("check_permission calls in every entry point", L+"database.rs"), ("check_permission calls in every entry point", L+"storage.rs")])
p("C19", "Sessions get exactly the rights of their user, groups and roles",
  "After any history of creating and deleting users, setting passwords, and adding or removing permission groups and roles, an authenticated or assumed identity holds exactly the permissions granted by the user's groups and the groups of the user's roles (plus those configured for authenticated users), and users, groups and roles can be referred to by id, name or document alike. Authentication succeeds exactly with the current password (or a valid token) of an existing user and otherwise fails without revealing which part was wrong or changing anything.",
  ["histories", "inputs"], "all histories of administrative operations and authentication attempts",
  "Tests perform one linear scenario per feature.",
  [L+"storage.rs", L+"storage/argon.rs", L+"storage/token_authentication.rs", C+"admin/user.rs", C+"admin/role.rs", C+"admin/group.rs", C+"admin/authentication_token.rs"],
  [("effective_permissions", C+"admin/user.rs"), ("update_user_with_named_id", L+"storage.rs"), ("authenticate / assume_identity", L+"storage.rs")])
p("C20", "Each subscriber receives exactly the messages of its topics, in order",
  "In every history of subscribing, unsubscribing and publishing, a subscriber receives each message published to a topic while it is subscribed exactly once, with the exact topic and payload and in publishing order, and nothing else: no messages from other topics, other databases, or after unsubscribing or dropping the subscriber. Publishing to several topics delivers once per subscribed topic, and the same holds through a remote connection.",
  ["histories", "schedules"], "all histories over several subscribers, topics (any bytes) and databases, and concurrent publishers",
  "Tests check a two-subscriber scenario.",
  [L+"database/pubsub.rs", C+"pubsub.rs", S+"dispatch.rs", S+"server/connected_client.rs", CL+"client.rs", CL+"client/remote_database/pubsub.rs"],
  [("relay per storage with database-qualified topics", L+"database/pubsub.rs"), ("subscriber registration per session", S+"server/connected_client.rs")])
p("C21", "Every interface gives the same answers: blocking, async, and remote",
  "For every history, performing it through the blocking local interface, the asynchronous local interface, or a remote client (over either transport, blocking or asynchronous) gives the same results and errors and leaves the same state. Concurrent requests on one connection are each answered with their own response.",
  ["histories", "schedules", "configurations"], "all histories of document, view, key-value, administration and message operations, with any data, over each interface",
  "The shared test suite runs the same fixed scripts over interfaces; it does not compare them on generated histories or with interleaved requests.",
  [L+"async.rs", L+"storage.rs", S+"dispatch.rs", S+"server.rs", S+"server/database.rs", CL+"client.rs", CL+"client/remote_database.rs", C+"networking.rs", C+"connection.rs", C+"connection/lowlevel.rs"],
  [("one handler per request type", S+"dispatch.rs"), ("request ids matched to responses", CL+"client.rs"), ("spawn_blocking wrappers", L+"async.rs")])
p("C22", "Hostile or broken clients cannot harm the server or other clients",
  "Whatever bytes or messages a client sends (malformed frames, unknown requests, wrong payload types, oversized or truncated values, foreign session, subscriber or database identifiers, abrupt disconnects), the server keeps running, answers well-formed requests of every other client correctly, and never performs an action the sending session is not permitted to perform. Protocol values survive encoding and decoding unchanged.",
  ["inputs", "histories"], "all byte sequences and request sequences sent on a connection",
  "Tests only use the official client, which never sends malformed or out-of-session requests.",
  [S+"server.rs", S+"server/websockets.rs", S+"server/connected_client.rs", S+"dispatch.rs", C+"networking.rs"],
  [("request decoding and error responses", S+"server.rs"), ("session lookup per request", S+"server/connected_client.rs")])
p("C23", "Stored files read back exactly the bytes written",
  "For every history of creating, appending, truncating, renaming, moving, changing metadata and deleting files, with any block size, each file's contents, length, path, name and metadata equal those of a reference model, whether read whole, in pieces, by block iteration, or after seeking, synchronously or asynchronously. Listings and statistics cover exactly the files under the given path, two files never share a path, and deleting or truncating a file leaves no orphaned data and never affects another file.",
  ["histories", "inputs", "configurations"], "all histories of file operations, buffer sizes, read sizes, seek positions and block sizes",
  "Tests use a few sizes around one block size.",
  [F+"direct.rs", F+"schema/file.rs", F+"schema/block.rs", F+"lib.rs"],
  [("block splitting and Contents reading", F+"direct.rs"), ("truncate", F+"schema/file.rs"), ("unique ByPath view", F+"schema/file.rs")])
p("C24", "Identifiers survive being written as text or bytes and read back",
  "Every authority, name, collection name, view name, schema name, API name and document id formats to text that parses back to the same identifier, and distinct identifiers never format to the same text; the same holds for their serialised forms. Ids built from numbers, strings or bytes convert back to the value they were built from, and limits on length are enforced on every path.",
  ["inputs"], "all identifiers over all characters (including separators and escapes) and all byte strings up to the length limit",
  "Tests format a few identifiers.",
  [C+"schema/names.rs", C+"document/id.rs", C+"api.rs"],
  [("Name encoding and parsing", C+"schema/names.rs"), ("DocumentId Display/FromStr", C+"document/id.rs")])
p("C25", "Concurrent clients never lose an update or see an impossible state",
  "For every schedule of concurrent readers and writers on one database, the outcome equals some serial order of the successful operations that respects real time: no acknowledged write is lost, of several writers holding the same header exactly one succeeds, retried read-modify-write loops add up, counters count every increment, and automatically assigned ids are distinct. Reads during the run, and views after it, agree with that order.",
  ["schedules", "histories"], "all interleavings of operations issued by several threads or clients",
  "Tests are single-threaded apart from one conflict test; interleavings are not explored.",
  [L+"database.rs", L+"database/keyvalue.rs", L+"tasks.rs", L+"views/mapper.rs"],
  [("roots transaction locks on all touched trees", L+"database.rs"), ("revision check inside the transaction", L+"database.rs"), ("key-value state lock", L+"database/keyvalue.rs")])
p("C26", "Typed collections keep what the low-level interface keeps",
  "For every value and history, storing through the typed collection interface (push, insert with id, natural ids, update, overwrite, modify, delete, entry with update or insert) leaves exactly the documents the low-level interface would, and reading them back typed returns the exact values with their ids and headers. Modify applies its change on the newest revision even when another writer interferes, an entry inserts exactly when nothing matched and updates only when it did, and migrations apply to documents stored by older code.",
  ["histories", "inputs"], "all histories of typed operations interleaved with low-level writers, for automatic, natural and custom ids and several serialisation formats",
  "Doc tests and unit tests show one use of each call.",
  [C+"schema/collection.rs", C+"document/collection.rs", C+"document.rs", C+"connection.rs"],
  [("SerializedCollection default methods", C+"schema/collection.rs"), ("Entry builder", C+"schema/collection.rs"), ("CollectionDocument::modify", C+"document/collection.rs")])
p("C27", "Timestamps and durations compute exactly at every resolution",
  "For every resolution and epoch, converting a duration or time to a limited-resolution value and back gives the original rounded to that resolution by the documented rule, exactly representable values round-trip through conversion, text and serialisation, and order is preserved. Sums and differences equal exact integer arithmetic, and results that cannot be represented are reported as errors instead of wrapping.",
  ["inputs"], "all durations, times, representations, resolutions and epochs",
  "Tests use a few values per resolution.",
  [C+"key/time.rs", C+"keyvalue/timestamp.rs"],
  [("TimeResolution conversions", C+"key/time.rs"), ("LimitedResolutionTimestamp conversions and parsing", C+"key/time.rs"), ("Timestamp arithmetic", C+"keyvalue/timestamp.rs")])
p("C28", "Data written by earlier versions stays readable",
  "A storage written by an earlier version (documents and the list of databases encoded with integer ids, transaction log entries in each of the former formats, views and view versions of former definitions, key-value entries) opens, shows exactly the documents, keys, databases and logged changes that were written, rebuilds its views to what the map functions yield for those documents, and can be used further as a storage of this version. Key types which preserve a former encoding encode and decode exactly as that version did.",
  ["inputs", "histories"], "all storage contents that earlier versions could have written, including by several versions one after the other, and all later histories",
  "The fixtures in the repository are two small storages with five single-document transactions each.",
  [L+"database.rs", L+"database/compat.rs", L+"views/integrity_scanner.rs", C+"key/deprecated.rs"],
  [("deserialize_document, LegacyDocument", L+"database.rs"), ("deserialize_executed_transaction_changes", L+"database/compat.rs"), ("ViewVersion, IntegrityScanner::execute", L+"views/integrity_scanner.rs"), ("TupleEncodingV1, OptionKeyV1", C+"key/deprecated.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        for a in d["anchors"]["files"]:
            if not os.path.exists("/repo/" + a): print("missing", d["id"], a)
        if len(d["title"]) > 80: print("title too long", d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
