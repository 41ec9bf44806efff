T = "property-based testing: "
MORE = {
 "C02": (T+"structured mutation fuzzing of valid encodings and arbitrary bytes/text against 'error or a value that round-trips', panics caught", "exploration",
  "Random mutations of valid encodings of every key type, identifier, protocol value; pot's own container skipping is excluded (trusted dependency)."),
 "C24": (T+"random names and ids against injectivity, order and round-trip relations in text, pot, json and bincode", "exploration",
  "Searches pairs of names and ids; absence of a counterexample is evidence, not proof."),
 "C27": (T+"random durations, timestamps and sums against exact i128 reference arithmetic", "exploration",
  "Searches boundary-biased values; absence of a counterexample is evidence, not proof."),
 "C28": (T+"storages written with the storage engine in the formats of earlier versions, opened and used by model-based histories, compared with the reference model", "exploration",
  "The former formats are taken from the compatibility code and the fixtures of the repository; random contents and histories."),
 "C03": (T+"model-based histories of document writes on several collections, compared after each step and across reopens with a revision-guarded map", "exploration",
  "Random histories; schedules of background mappers vary. One known finding (rollback behind a multi-page log entry, nebari 0.5.5) is reproduced by its own section."),
 "C04": (T+"model-based histories with generated listings, counts and multi-gets over every range form, order and limit against the reference map", "exploration", "Random histories and ranges; absence of a counterexample is evidence, not proof."),
 "C05": (T+"model-based transactions with generated failing operations at every position; state, views and log compared before and after", "exploration", "Random transactions; concurrent readers look for partly applied ones."),
 "C06": (T+"model-based histories; executed transactions compared entry by entry with the reference log for every slice", "exploration", "Random histories and slices."),
 "C07": (T+"model-based histories of writes and view queries against recomputing the map function on every stored document, across reopens and view version changes", "exploration", "Random histories over lazy and eager, mapped and reduced, multi-key views."),
 "C08": (T+"model-based histories with colliding keys against a reference index of unique views", "exploration", "Random histories with a small key domain so that conflicts are frequent."),
 "C09": (T+"model-based view contents and generated queries against direct evaluation", "exploration", "Random contents and queries of every kind."),
 "C10": (T+"model-based key-value operation sequences against a reference map with exact types", "exploration", "Random histories; two known findings (empty namespace, NUL in namespace) are matched by exact signatures."),
 "C11": (T+"histories with expirations, real time and reopening under generated persistence thresholds against a reference map with deadlines", "exploration", "Random histories; answers within a tolerance around a deadline are accepted either way."),
 "C14": (T+"model-based histories with compactions of every target interleaved and concurrent, contents, views, log and key-values compared with the reference model", "exploration", "Random histories; compacting threads race freely, so schedules are sampled."),
 "C15": (T+"differential histories across encryption/compression settings, look-alike payloads, plaintext search over the written files, ciphertext alterations with recomputed checksums, foreign keys", "exploration", "Random histories and alterations; the first four bytes of a chunk are not authenticated (known finding)."),
 "C12": (T+"fault injection: random histories whose file operations are intercepted; at generated ones (also in the middle of a write) the directory is copied as a crash or a loss of power would leave it, reopened, and compared with the reference model's states between the last acknowledged and the last begun operation; recoveries continue and crash again", "exploration", "Random crash points. Directory entries are assumed to survive. Three known findings of nebari 0.5.5; images which hold what it does not recover from are only read, or left out, and counted."),
 "C13": (T+"random storages (awkward names, ids, keys, settings) backed up and restored, in memory and through directories; objects of the backup and the restored databases compared with the reference models", "exploration", "Random contents; one known finding (namespaces containing the separator of object names)."),
 "C16": (T+"histories of creating, deleting and recreating databases (also by hostile names, with handles held and jobs running) in one storage against a map of reference models; sentinel files beside the storage", "exploration", "Random histories; jobs of deleted databases race freely, so schedules are sampled."),
 "C17": (T+"random statements, resources and actions (near misses, wildcards, prefixes) against a reference evaluator of the documented rules; pairs of generated resource names for collisions", "exploration", "Random statements and names; one known finding (a later, narrower action of one statement list replaces a wider one)."),
 "C18": (T+"metamorphic: every operation through a randomly restricted handle, blocking or asynchronous, against the same operation on an unrestricted mirror and the documented needs; refused operations must change nothing", "exploration", "Random grants near what an operation needs; absence of a counterexample is evidence, not proof."),
 "C19": (T+"model-based histories of users, groups, roles, passwords and tokens against a reference model of rights; probes of every session, altered handshakes", "exploration", "Random histories through the blocking and asynchronous interfaces."),
 "C20": (T+"model-based histories of subscribers, subscriptions and publishing through every interface (local, asynchronous, server, remote over both transports) against a reference list of deliveries; concurrent publishers checked per publisher", "exploration", "Random histories and freely racing publishers."),
 "C21": (T+"differential: the same generated history through blocking, asynchronous, server and remote interfaces, results and final state compared; concurrent tagged requests on one connection; connections cut at random moments", "exploration", "Random histories; schedules of concurrent requests are sampled."),
 "C22": (T+"random hostile clients (malformed frames and streams, unknown apis, errors as bodies, refused and panicking requests, floods, unfinished handshakes, stalled connections) against liveness of an honest client, unchanged data and released resources", "exploration", "Random attacks on a server in this process, absurd lengths on one in a child process; two known findings in dependencies."),
 "C23": (T+"model-based histories of files (create, append, buffered writes, read, seek, async and cancelled reads, truncate, rename, move, delete, list, stats) through blocking, asynchronous and remote handles against a reference tree of byte vectors; racing appenders, readers and deleters checked for lost and foreign bytes", "exploration", "Random histories over several block sizes; racing threads' schedules are sampled."),
 "C25": (T+"random concurrent workloads of threads and clients (documents, counters, key-values, transactions, conditional writes, creating databases and users) through every interface; recorded histories searched for a serial order respecting real time and the transaction log (Wing-Gong), with exact oracles for contended workloads", "exploration", "Free-running threads: schedules are sampled, not enumerated. Reads of one history are of one collection, since transactions over several publish collection by collection."),
 "C26": (T+"model-based histories of the typed interface (every method, blocking, asynchronous and remote; ids assigned, natural, composite; pot, bincode, key serialisation) against the documents the low-level interface must hold; another writer interferes inside modify and entry closures; migrations from documents of older code", "exploration", "Random histories over six collections. Negative ids of fixed-width integers are left out (known finding of C01)."),
}
NOT_APPLICABLE = {}
