#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})
S = "src/storage/"
p("P01", "A label update is an exclusive compare-and-swap in every label store",
  "Updating a label succeeds only if the stored label still equals, in name, layer and version, the one the caller passed; otherwise nothing is written and the caller is told the update did not happen. Reading the stored label, comparing it and writing the new one happen in one exclusive critical section, in the memory, the locked-directory and the cached-directory store alike. A successful update keeps the name, carries exactly the requested layer and raises the version by one, and creating a label that already exists fails without changing it.",
  ["schedules", "histories"], "All interleavings of label operations on one name, within a process and (locked directory store) across processes, and all histories of updates, deletions and recreations.",
  "The tests run a handful of sequential updates per store; no test interleaves two writers or recreates a label between read and update.",
  [S+"label.rs", S+"memory.rs", S+"directory.rs", S+"locking.rs"],
  [("Label::with_updated_layer", S+"label.rs"), ("set_label_option x3", S+"directory.rs, "+S+"memory.rs"), ("ExclusiveLockedFile::open / create_and_open", S+"locking.rs")],
  ["return value of set_label/clear_label", "get_label after the update"])
p("P02", "An acknowledged label change is completely on stable storage",
  "When creating, moving or clearing a label on a directory-backed store returns success, the label file holds exactly the new content and has been flushed and synced after the last write, and a newly created or replaced file's directory entry has been synced too. Nothing of the previous content remains in the file, and an in-memory copy of the label is replaced only after the file has been written and synced.",
  ["crash_points", "fault_sequences"], "Every crash point after the acknowledgement and every failing write, flush or sync before it.",
  "Tests never crash the process or fail a sync; a missing sync or a stale tail of an old, longer content goes unseen unless exactly that update is read back from disk.",
  [S+"directory.rs", S+"locking.rs"],
  [("create_label, set_label_option", S+"directory.rs"), ("ExclusiveLockedFile::sync_all/truncate", S+"locking.rs")],
  ["label file after create_label/set_label/clear_label returned Ok"])
p("P03", "Interrupting a metadata update never destroys the previous version",
  "A crash or a failing write at any point while a label is updated, a rollup is registered or a finished layer is stored leaves the previously readable version readable: existing metadata is replaced by writing the new content aside and renaming it into place, never by truncating or overwriting the file readers use. Files that already hold committed data are never opened in a mode that creates over or truncates them.",
  ["crash_points", "fault_sequences"], "Every crash point inside label updates, rollup registration and layer storing.",
  "No test interrupts an update; the window between truncation and the sync is invisible to tests that run to completion.",
  [S+"directory.rs", S+"archive.rs", S+"locking.rs"],
  [("set_label_option (directory stores)", S+"directory.rs"), ("set_rollup, store_layer_file", S+"archive.rs")],
  ["label/rollup/layer files after a crash inside the update"])
p("P04", "Setting a head only ever moves a graph forward along its history",
  "An ordinary set of a graph's head takes effect only if the graph has no head yet or its current head is an ancestor of the new layer, and reports false without changing anything otherwise, including when another writer changed the head in between. The head that is compared is the very label value the conditional update is then based on, and the layer written is the layer passed in. Only the explicitly forcing variants skip the ancestry test; the versioned forcing variant acts only if the stored version equals the expected one, and the unconditional one retries until its update has been applied.",
  ["schedules", "histories"], "All interleavings of head updates on one graph and all ancestor relations between current head and new layer.",
  "Tests cover a linear chain and a single refused move; no test races two writers or mixes forced and ordinary updates.",
  ["src/store/mod.rs", S+"label.rs", S+"layer.rs"],
  [("NamedGraph::set_head, force_set_head, force_set_head_version", "src/store/mod.rs"), ("layer_is_ancestor_of", S+"layer.rs")],
  ["return value of set_head", "head() after the call"])
p("P05", "A layer builder can be committed at most once and never changes afterwards",
  "From the moment a commit of a layer builder starts, every further add, remove, commit or apply on the same builder fails with an error instead of changing or committing anything, also when the first commit itself fails. Two concurrent commits of one builder can never both write a layer, and a builder that has been committed reports itself as such.",
  ["schedules", "histories"], "All interleavings of calls on a shared builder and all histories with failing commits.",
  "The tests commit a builder once, in sequence.",
  ["src/store/mod.rs"],
  [("StoreLayerBuilder::commit_no_load, with_builder, committed", "src/store/mod.rs")],
  ["return value of builder operations after a commit began"])
p("P06", "A layer's name is handed out only after all of its files are durable",
  "Every operation that creates a stored layer - commit, rollup, squash, merge and import - returns the layer or its name only after every file of the layer has been written and synced, its parent or rollup link included, and the store's finalisation of that layer has succeeded. Finalisation makes the layer's directory entry durable in the directory store, and writes, flushes and syncs the whole archive before the layer leaves the construction area in the archive store. Nothing that refers to the new layer, such as a rollup registration, is written before that.",
  ["crash_points", "fault_sequences"], "Every crash point after the operation returned, and every I/O failure during it, for each creating operation and each persistent store.",
  "Tests never crash; page cache makes unsynced data readable in the same process.",
  [S+"layer.rs", S+"directory.rs", S+"archive.rs", "src/layer/simple_builder.rs", "src/layer/builder.rs", S+"pack.rs", "src/store/mod.rs"],
  [("finalize", S+"directory.rs, "+S+"archive.rs"), ("perform_rollup*, squash*, merge_base_layer, finalize_layer", S+"layer.rs"), ("import_layers", S+"pack.rs"), ("write_parent_file, write_rollup_file", S+"layer.rs")],
  ["layer readable after a crash that follows the acknowledgement"])
p("P07", "Storage errors always reach the caller",
  "Whenever an I/O operation on a label, layer, archive or pack fails, the public operation that needed it returns an error: the failure is never dropped, turned into a success, into 'absent' or into an end of data, unless it is precisely a not-found answer to an existence question. Cleanup or best-effort steps do not mask an earlier error.",
  ["fault_sequences", "inputs"], "Every I/O call site of the storage and store layers, failing with every error kind.",
  "Tests inject no faults, so no error branch of an I/O call is executed at all.",
  ["src/storage", "src/store", "src/layer/simple_builder.rs", "src/layer/builder.rs"],
  [("every call returning io::Result or Poll<io::Result>", "src/storage, src/store, src/layer")],
  ["return value of any public operation when an I/O call fails"])
p("P08", "Every layer file has one identity in all stores, archives and packs",
  "For each structure of a layer there is exactly one file name and one archive slot; writing, reading, copying, exporting and the archive index agree on it for base and child layers alike. No two structures of a layer share a file name or slot, required and optional lists cover exactly the files a layer writes, and the archive slot numbering is the fixed on-disk one.",
  ["inputs", "configurations"], "All file roles of base and child layers over all persistent stores.",
  "Tests that write and read through the same wrong table agree with themselves; a swapped pair of optional or same-shaped files is only visible in data the tests do not contain.",
  [S+"consts.rs", S+"layer.rs", S+"archive.rs", S+"pack.rs", S+"copy.rs", S+"file.rs"],
  [("FILENAMES, LayerFileEnum, FILENAME_ENUM_MAP, *_REQUIRED_FILES/*_OPTIONAL_FILES", S+"consts.rs"), ("base_layer_files, child_layer_files and the per-structure getters", S+"layer.rs")],
  ["files of a stored layer, archive presence header, pack entries"])
p("P09", "Layer structures are wired to their own files and index direction",
  "When a layer is built, copied, loaded or queried, each structure - node, predicate and value dictionary, id maps, subject and object arrays, s-p, sp-o and o-ps indexes, predicate wavelet tree - is connected to the file or value of that same structure, and additions only ever to additions and removals only to removals. No constructor or loader crosses two same-shaped slots.",
  ["inputs"], "All construction, copy, load and accessor sites of base, child and rollup layers.",
  "Crossed slots of the same type compile, and show only with data in which both structures differ in the tested position.",
  ["src/layer/internal", S+"file.rs", S+"copy.rs", S+"layer.rs", S+"delta.rs", "src/layer/builder.rs"],
  [("BaseLayer/ChildLayer::load_from_files, load", "src/layer/internal/base.rs, child.rs"), ("InternalLayer accessors", "src/layer/internal/mod.rs"), ("copy_from, map_all", S+"copy.rs, "+S+"file.rs")],
  ["contents of loaded layers"])
p("P10", "The synchronous API performs exactly the asynchronous operation it names",
  "Every method of the synchronous store, graph, layer and builder handles runs the asynchronous method of the same name on the object it wraps, with its own arguments in order, waits for it, and returns that very result; none is silently missing, reordered, substituted or short-cut.",
  ["inputs", "programs"], "All public methods of the synchronous handles.",
  "The synchronous tests call a few methods; most have no test at all.",
  ["src/store/sync.rs", "src/store/mod.rs"],
  [("task_sync and the Sync* wrappers", "src/store/sync.rs")],
  ["results of Sync* methods compared with the async ones"])
p("P11", "The layer cache never changes an answer",
  "A store with a layer cache answers every query, count, existence test and delta request exactly as the store below it would: what it does not answer from a cached layer it forwards unchanged to the same operation of the inner store, and it answers delta requests itself only for a cached layer that is not a rollup. The cache hands out a layer only under the name it was requested by, and registering a rollup drops the cached copy of that layer after the inner store has accepted it.",
  ["histories", "schedules"], "All operations of the layer-store interface over all cache states.",
  "Tests exercise the cache for loading a few layers; the forwarded operations and the rollup case have none.",
  [S+"cache.rs"],
  [("impl LayerStore for CachedLayerStore", S+"cache.rs"), ("LockingHashMapLayerCache", S+"cache.rs")],
  ["any LayerStore operation with and without cache"])
p("P12", "A rollup keeps the identity, history and deltas of the layer it replaces",
  "Loading a layer that has a rollup yields a layer with the original name and the original parent, while its content is read from the rollup; additions, removals and their counts are always computed from the original layer's own files, never from the rollup's. A rollup is registered for exactly the layer it was made from, only when it is complete and only after a check against the rollup already in place, and a partial rollup's recorded base is exactly the boundary its content was computed against.",
  ["histories"], "All sequences of commits, rollups and partial rollups over a layer stack and all queries on the result.",
  "Tests roll up short linear stacks once; repeated rollups, boundaries inside other rollups and deltas of rolled-up layers are barely reached.",
  [S+"layer.rs", S+"delta.rs", "src/layer/internal/rollup.rs", "src/layer/internal/mod.rs"],
  [("perform_rollup*, register_rollup, get_layer_with_cache", S+"layer.rs"), ("RollupLayer, InternalLayer::name/parent_name", "src/layer/internal"), ("imprecise_delta_rollup_upto", S+"delta.rs")],
  ["name()/parent_name()/triple_additions() of a rolled-up layer"])
p("P13", "Every stored layer and label is found again by enumeration",
  "Listing the layers or labels of a store yields every layer or label that was stored through it, looking exactly where the store writes them, and refuses or skips nothing that is a proper entry. Existence tests, loading and enumeration derive an entry's place from its name in the same way as creation does.",
  ["histories", "configurations"], "All sets of stored layers and labels, for each persistent store.",
  "No test enumerates a directory or archive store after layers were stored in it.",
  [S+"directory.rs", S+"archive.rs", S+"memory.rs"],
  [("directories / get_layer_names / labels", S+"directory.rs, "+S+"archive.rs, "+S+"memory.rs"), ("path construction with 3-character prefix", S+"directory.rs, "+S+"archive.rs")],
  ["layers() / labels() after storing"])
p("P14", "The archive cache is bounded, coherent and never left unresolved",
  "The archive store's in-memory cache returns only bytes the backing store holds for that layer, stays within its configured size limit by evicting whole entries and accounting for what it adds and removes, and does not lose or duplicate a lookup that is in flight. The cache lock is never held while the backing store is being read or written, and a failed or abandoned lookup leaves the cache so that later lookups try again.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of concurrent lookups, stores and evictions, including failing and cancelled lookups.",
  "No test goes beyond the limit, fails the backing store or cancels a lookup.",
  [S+"archive.rs"],
  [("LruArchiveBackend", S+"archive.rs"), ("CacheEntry Resolving/Resolved", S+"archive.rs")],
  ["get_layer_bytes results, cache size accounting"])
p("P15", "Locks are exclusive for writers, released on every path and never deadlock",
  "Whoever modifies a shared file or map holds its exclusive lock from before the first read the decision rests on until after the last write, and readers hold at least the shared lock while they read. No blocking lock guard is held across a suspension point, no task acquires a lock it may already hold, and all code acquires locks in one consistent order.",
  ["schedules"], "All lock acquisition sites and all paths between acquisition and release.",
  "Tests are essentially sequential, so lock scope and order never matter in them.",
  [S+"locking.rs", S+"directory.rs", S+"memory.rs", S+"archive.rs", S+"cache.rs", "src/store/mod.rs"],
  [("LockedFile, ExclusiveLockedFile, LockedFileLockFuture", S+"locking.rs"), ("RwLock/Mutex fields of the stores", S+"memory.rs, archive.rs, cache.rs")],
  ["concurrent operations on one store"])
p("P16", "A committed layer never changes",
  "No operation on a store, graph or layer that exists already modifies, truncates or removes the files of a finished layer, apart from attaching a rollup to it; layer data is written only while the layer is being constructed under a fresh name. Loaded layers offer no way to mutate them, and only committing consumes a builder.",
  ["programs", "histories"], "All programs using the public API and all internal write paths.",
  "A test cannot show the absence of a mutating path.",
  ["src/layer", S+"layer.rs", S+"directory.rs", S+"archive.rs", "src/store"],
  [("open_write call sites", "src/layer, src/storage"), ("Layer trait and InternalLayer (shared references only)", "src/layer")],
  ["bytes of a finished layer's files"])
p("P17", "Node/value ids and predicate ids are never interchanged",
  "Every lookup, id mapping, offset and counter applied to a subject or object id is the node/value one, and every one applied to a predicate id is the predicate one, in builders, queries, deltas, rollups and merges. A predicate's id never passes through a node or value dictionary, id map or count, nor the other way round.",
  ["inputs", "programs"], "All places in which an id flows between triples, dictionaries, id maps and counts.",
  "Both kinds are plain integers; mixing them compiles and gives right answers while the two spaces happen to coincide, as in small test data.",
  ["src/layer", S+"delta.rs", S+"layer.rs"],
  [("IdTriple fields, id_map.rs, dictionary accessors, parent counts", "src/layer"), ("dictionary and triple rollup", S+"delta.rs")],
  ["triples read back after commit/rollup/squash/merge"])
p("P18", "Walking a layer's history follows parents and never repeats or skips",
  "Every walk over a layer's ancestry asks each visited layer for its own parent and its own data, advances on every round, and ends at the base layer or at the requested boundary; it reports an error if the boundary is not found. Changes collected over a walk are those of the layers walked, each once.",
  ["histories"], "All ancestry lengths, boundaries and positions of rollups in the chain.",
  "Tests use chains of one to three layers in which many mistakes are invisible.",
  [S+"layer.rs", S+"delta.rs", "src/layer/internal/mod.rs", S+"pack.rs", "src/store/mod.rs"],
  [("layer_is_ancestor_of, layer_changes*, retrieve_layer_stack_names*", S+"layer.rs"), ("immediate_layers*", "src/layer/internal/mod.rs"), ("safe_upto_bound", S+"delta.rs")],
  ["layer_changes, ancestor tests, squash/rollup results"])
p("P19", "A pack carries whole layers and importing it is complete or fails",
  "Exporting writes, for every requested layer, all files it has, under the layer's name, and fails if a mandatory one is missing; importing recreates exactly the requested layers found in the pack, file for file with their complete content, and finalises each of them before success is reported. The parent table read from a pack is read from the same entries an import would store.",
  ["inputs", "histories"], "All sets of layers, base and child, with and without optional files.",
  "One test round-trips three small layers; layers with other optional files, failing entries or unfinished imports are not reached.",
  [S+"pack.rs", S+"layer.rs", S+"consts.rs"],
  [("export_layers, import_layers, pack_layer_parents", S+"pack.rs")],
  ["pack bytes, layers after import"])
p("P20", "A commit writes exactly the pending changes that matter",
  "A builder keeps every triple it is given, as an addition or as a removal as asked. Commit writes the pending additions as additions and the pending removals as removals, each triple once; a triple that is pending both ways is left as the parent has it. Only changes that make a difference against the parent are written: a triple the parent has is not added again, and one it lacks is not removed. The temporary ids of new nodes, predicates and values all become the ids their entries get in the layer's own dictionaries, and those hold exactly the new entries that are used. Applying a delta or a difference to a builder queues exactly that layer's changes or the difference to the parent.",
  ["histories", "inputs"], "All sequences of additions and removals on one builder over any parent.",
  "Tests use short sequences with disjoint triples; interleaved adds and removes of one triple are hardly covered.",
  ["src/layer/simple_builder.rs", "src/layer/builder.rs", "src/store/mod.rs"],
  [("SimpleLayerBuilder add_*/remove_*/commit", "src/layer/simple_builder.rs"), ("with_builder closures", "src/store/mod.rs")],
  ["triples and deltas of the committed layer"])
p("P21", "Addition queries read only additions, removal queries only removals",
  "Every query for a layer's own additions consults the layer's addition structures only, and every query for its removals consults the removal structures only, with the argument given and along the index made for it; a query over a whole layer stack subtracts each layer's removals from what lies below it. The variants by subject, subject-predicate, predicate, object, existence and count agree on this.",
  ["inputs", "histories"], "All query entry points of base, child, rollup and stored-delta layers.",
  "Swapped structures answer correctly on layers without removals or with symmetric data, as most test layers are.",
  ["src/layer/internal", S+"layer.rs", "src/layer/layer.rs", "src/store/mod.rs"],
  [("internal_triple_additions*/removals* of InternalLayer", "src/layer/internal/mod.rs"), ("triple_additions*/triple_removals* of the layer stores", S+"layer.rs")],
  ["additions and removals reported for a layer"])
p("P22", "Archive files are written and read with one and the same layout",
  "What the archive writer stores - presence bits, slice offsets and the data slices - is decoded by every reader with the same order, width and meaning: a file is reported present exactly if it was stored, and its bytes are exactly the slice recorded for it. Reading part of a file stays inside that file's slice, and sizes reported agree with the bytes delivered.",
  ["inputs"], "All combinations of present files and all sizes, including empty files.",
  "Tests cover a handful of presence patterns through one reader.",
  [S+"archive.rs", S+"consts.rs"],
  [("Archive header writing and ArchiveHeader parsing", S+"archive.rs"), ("ArchiveSliceReader, ArchiveRollupFile", S+"archive.rs")],
  ["bytes and sizes of files read from an archive"])
p("P23", "A store layer and its wrappers answer exactly as the layer they wrap",
  "Every layer operation offered by the store's layer handles is answered by the same operation of the wrapped layer with the same arguments in the same order, and every delta operation by the layer store for exactly this layer's name; nothing falls back to a different or default implementation. Layers derived from a handle - parent, squash, rollup, new builder - are derived from exactly this layer.",
  ["inputs", "programs"], "All methods of the layer handles.",
  "Only a part of the forwarders is called by tests, mostly with arguments for which a mix-up is invisible.",
  ["src/store/mod.rs", "src/store/sync.rs", "src/layer/layer.rs"],
  [("impl Layer for StoreLayer, StoreLayer methods", "src/store/mod.rs"), ("impl Layer for SyncStoreLayer", "src/store/sync.rs")],
  ["results of StoreLayer methods"])
p("P24", "Malformed stored or imported data is reported as an error, not a panic",
  "Opening, listing, loading or importing labels, layer names, parent links, rollup links, archives and packs whose content is truncated, foreign or otherwise malformed returns an error to the caller; it never panics the task. Lengths and names taken from such content are checked before they are used to slice, index or convert. This speaks of label files, the link files that name a layer's parent and rollup (each by itself: a ring of links over several layers is not meant), the archive header with its sizes, directory listings and pack archives; not of the succinct structures inside a layer's own content files, whose byte format belongs to the tdb-succinct library.",
  ["inputs", "fault_sequences"], "All byte contents of label files, layer links, archive headers and pack archives.",
  "Tests only feed well-formed data written by the code itself.",
  [S+"layer.rs", S+"directory.rs", S+"archive.rs", S+"pack.rs", S+"consts.rs"],
  [("string_to_name, bytes_to_name, get_label_from_data, ArchiveHeader::parse, get_rollup, get_parent, import_layers", "src/storage")],
  ["result of reading corrupted stores and packs"])
# ---- not applicable to static analysis -----------------------------------
p("P40", "A query over a layer stack returns exactly the surviving triples",
  "For every layer stack the triples returned by any query are exactly those that were added and not removed since, each once.",
  ["inputs", "histories"], "All layer stacks and query arguments.", "Tests sample small stacks.",
  ["src/layer/internal"], [("subject/predicate/object iterators", "src/layer/internal")], ["triples() and its variants"])
p("P41", "Dictionary lookups round-trip",
  "For every string or typed value stored in a layer, looking up its id and then the id's content returns the same content, and distinct contents have distinct ids.",
  ["inputs"], "All dictionary contents.", "Tests sample a few strings.",
  ["src/layer/internal", "src/layer/builder.rs"], [("dictionaries and id maps", "src/layer")], ["subject_id/id_subject and the like"])
p("P42", "Iterators yield triples in index order, complete and without duplicates",
  "Every triple iterator yields its triples in strictly ascending order of its index.",
  ["inputs", "histories"], "All layer stacks.", "Tests compare a few sequences.",
  ["src/layer/internal"], [("subject_iterator, object_iterator, predicate_iterator", "src/layer/internal")], ["iteration order"])
p("P43", "Rollup, squash and merge preserve the set of triples",
  "A rollup, squash or merge answers every query with the same triples as the layers it was made from.",
  ["inputs", "histories"], "All layer stacks and boundaries.", "Tests sample small stacks.",
  [S+"delta.rs", "src/layer/internal/base_merge.rs", S+"layer.rs"], [("delta rollup, base merge, squash", "src/storage, src/layer")], ["triples before and after"])
p("P44", "Id maps are permutations",
  "The id maps of a layer are bijections between inner and outer ids, and ids of ancestors stay stable in descendants.",
  ["inputs"], "All merged dictionaries.", "Tests sample a few permutations.",
  ["src/layer/id_map.rs"], [("IdMap::inner_to_outer / outer_to_inner", "src/layer/id_map.rs")], ["ids of entries across layers"])
p("P45", "Contended operations make progress",
  "Under contention, some label writer always succeeds and every reader eventually completes.",
  ["schedules"], "All fair schedules.", "Tests run without contention.",
  ["src/store/mod.rs", S+"locking.rs"], [("force_set_head retry, file locks", "src/store, src/storage")], ["completion of concurrent calls"])
p("P46", "Label histories are linearizable across processes",
  "All label operations of all processes on one directory appear to take effect one at a time, in an order consistent with real time.",
  ["schedules", "histories"], "All multi-process histories.", "No multi-process test exists.",
  [S+"directory.rs", S+"locking.rs"], [("file locks", S+"locking.rs")], ["label values seen by several processes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
