#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json (claimed = a check module exists)."""
import ast, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/dbzero/"


def P(id, title, statement, over, text, why, files, mech, note, level="model_checking", technique=None):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note, level=level, technique=technique)


PROPS = [
 P("C01", "Committed data survives close and re-open, complete and unchanged",
   "Whatever sequence of operations an application performs on memo objects, their members, lists, dicts, sets, tuples, bytearrays, tags and indexes, everything that was committed (explicitly or by closing) is read back equal after the prefix is closed and opened again, read-only or read-write. Clearing caches or re-opening between operations changes nothing, and the re-opened prefix stays fully writable.",
   ["histories", "programs"], "all operation sequences x transaction cuts (commit, cache clearing, re-open)",
   "The tests re-open after a few fixed histories; the defects live in particular combinations of operations within and across transactions.",
   [SRC + "workspace/Fixture.cpp", SRC + "core/storage/BDevStorage.cpp", SRC + "workspace/Workspace.cpp", SRC + "core/memory/PrefixImpl.cpp"],
   [("commit and close", "Fixture::commit, Fixture::close, Workspace::close"), ("page write-back", "PrefixImpl::commit, DirtyCache"), ("load on open", "BDevStorage::refresh / readers")],
   "every history of the bounded alphabet was executed on the real library and compared with the reference model after each re-open"),
 P("C02", "A crash at any point leaves the last committed state, never a partial one",
   "If the writing process dies or power is lost at any instant, including with torn or unsynced writes, the prefix can afterwards be opened and shows exactly the state of the last completed commit or that of the commit in progress, never a mixture, and can be written again.",
   ["crash_points", "fault_sequences"], "every write / sync boundary of recorded histories, torn writes of every page, loss of unsynced writes",
   "The tests kill the process at best at a random time; they cannot enumerate the points between two writes nor torn or reordered writes.",
   [SRC + "core/storage/BDevStorage.cpp", SRC + "core/storage/BlockIOStream.cpp", SRC + "core/dram/DRAM_IOStream.cpp", SRC + "core/storage/Diff_IO.cpp"],
   [("commit protocol", "BDevStorage::flush"), ("append-only streams", "BlockIOStream::flush"), ("DRAM pages", "DRAM_IOStream::flushUpdates")],
   "fault enumeration: every crash point of the recorded write/sync sequences of a menu of histories; torn writes at sector granularity samples the cut inside a write",
   level="fault_enumeration"),
 P("C03", "Snapshots are frozen: they show exactly the state they were taken at",
   "A snapshot shows precisely the committed state it was taken at (current or any earlier retained state number), for every kind of object, query and index, and keeps showing it whatever is written, committed, deleted or cancelled afterwards. It can be read together with the live data without either being affected.",
   ["histories"], "all pairs (operation sequence before, operation sequence after) and all retained state numbers",
   "The tests look at a few objects in a few snapshots; isolation has to hold for every object kind, page and later write.",
   [SRC + "workspace/WorkspaceView.cpp", SRC + "workspace/Snapshot.cpp", SRC + "core/memory/PrefixViewImpl.hpp", SRC + "core/memory/PrefixCache.cpp"],
   [("snapshot views", "WorkspaceView, Fixture::getSnapshot"), ("page versions", "PrefixCache::findRange, SparseIndex lookup")],
   "every history executed on the real library; every retained state number compared with the model's record of that state"),
 P("C04", "An atomic block is applied completely or not at all",
   "After an atomic block is left normally all of its changes are present; after an exception or a cancel every object, collection, tag, index and query shows exactly what it showed before the block, including uncommitted changes made before it. Later operations, commits, snapshots and re-opening see the same.",
   ["histories", "programs"], "all blocks of one or two operations x exits x preceding uncommitted change x live handles",
   "The tests cancel a handful of blocks on single collections; the state to be restored depends on what is cached, pending and held at that time.",
   [SRC + "workspace/AtomicContext.cpp", SRC + "core/memory/PrefixImpl.cpp", SRC + "workspace/Fixture.cpp", SRC + "core/memory/PrefixCache.cpp"],
   [("begin / cancel / close", "AtomicContext"), ("page rollback", "PrefixCache::rollback, PrefixImpl::cancelAtomic"), ("instances with pending updates", "GC0::cancelAtomic")],
   "every history executed on the real library and compared with a model that drops the block's copy on cancel"),
 P("C05", "A second process reading the prefix sees only complete commits, in order",
   "A process that has the prefix open read-only, while another writes it, sees at every moment exactly one committed state; successive reads never go back; once refreshed after a commit it sees that commit, with every object, collection, tag and index equal to what the writer committed.",
   ["schedules", "histories"], "every interleaving of the reader's refresh with the individual file writes of the writer",
   "The tests run two processes freely; refresh can fall between any two writes of a commit and only few of those points are ever hit.",
   [SRC + "core/storage/BDevStorage.cpp", SRC + "workspace/Fixture.cpp", SRC + "core/dram/DRAM_IOStream.cpp"],
   [("refresh", "BDevStorage::beginRefresh/completeRefresh, Fixture::refresh"), ("DRAM refresh", "DRAM_IOStream::beginApplyChanges/completeApplyChanges")],
   "the writer's recorded file operations are replayed one at a time under a real reader process that refreshes between them"),
 P("C06", "Lists, tuples and byte arrays behave like Python's",
   "For every sequence of operations they support, a dbzero list, tuple or bytearray returns the same results, raises in the same situations and holds the same contents as the Python type, within a session, after commit and after re-opening.",
   ["programs", "inputs"], "all operation sequences up to a depth over an alphabet of calls and arguments, with boundary sizes",
   "The tests call each method with one or two arguments on short collections; interactions between operations, page boundaries and argument kinds are not covered.",
   [SRC + "bindings/python/collections/PyList.cpp", SRC + "object_model/list/List.cpp", SRC + "core/collections/vector/v_bvector.hpp", SRC + "object_model/bytearray/ByteArray.cpp", SRC + "object_model/tuple/Tuple.cpp"],
   [("list", "List, PyList, v_bvector"), ("bytearray", "ByteArray, PyByteArray"), ("tuple", "Tuple, PyTuple")],
   "every sequence up to the depth executed on the real collections and on Python's"),
 P("C07", "Dicts behave like Python's",
   "For every sequence of operations it supports, a dbzero dict returns the same results, raises in the same situations and holds the same items as a Python dict (irrespective of order), for all supported key kinds including colliding keys, within a session, after commit and after re-opening.",
   ["programs", "inputs"], "all operation sequences up to a depth over an alphabet of calls, keys and values, including keys with equal hashes",
   "The tests use few keys without hash collisions and do not mix operations.",
   [SRC + "bindings/python/collections/PyDict.cpp", SRC + "object_model/dict/Dict.cpp", SRC + "object_model/item/Item.cpp"],
   [("dict", "Dict, PyDict"), ("key hashing", "getPyHash, DictView")],
   "every sequence up to the depth executed on the real dict and on Python's"),
 P("C08", "Sets behave like Python's",
   "For every sequence of operations and set algebra it supports, a dbzero set returns the same results, raises in the same situations and holds the same elements as a Python set, for all supported element kinds including colliding ones, within a session, after commit and after re-opening.",
   ["programs", "inputs"], "all operation sequences up to a depth over an alphabet of calls and elements; all pairs of small sets for the algebra",
   "The tests exercise each operator on one or two pairs of sets.",
   [SRC + "bindings/python/collections/PySet.cpp", SRC + "object_model/set/Set.cpp"],
   [("set", "Set, PySet")],
   "every sequence up to the depth executed on the real set and on Python's"),
 P("C09", "Object members hold exactly the value last assigned",
   "A member of a memo object always reads back as the value last assigned to it, with its type, for every supported kind and size of value, whether assigned in the constructor, replaced by another kind, added later or deleted; other members of the same and of other objects are never affected. This holds within a session, after commit and after re-opening.",
   ["programs", "inputs"], "all sequences of assignments / deletions over value kinds and member slots",
   "The tests assign one value of most kinds; member storage depends on the history of kinds assigned to the slot and on the object's other members.",
   [SRC + "object_model/object/Object.cpp", SRC + "object_model/object/ObjectImplBase.cpp", SRC + "object_model/value/Value.cpp", SRC + "bindings/python/types/PyObjectImpl.cpp", SRC + "object_model/object/KV_Index.hpp"],
   [("member storage", "Object::set, PosVT, IndexVT, KV_Index"), ("value encoding", "createMember / unloadMember")],
   "every sequence up to the depth executed on real objects and on a dict"),
 P("C10", "Index range queries and sorting return exactly the right objects in order",
   "An index returns from a range selection exactly the objects whose key lies within the bounds (inclusive or exclusive, open-ended, null keys as documented), and sorts any query's result ascending or descending by key with nulls placed as requested. Adding, removing, re-keying, committing, cancelling and re-opening keep this true.",
   ["programs", "inputs"], "all sequences of index updates over keys of each kind, all bounds, all sort orders",
   "The tests check a few ranges of a few sizes; the index changes representation with size and buffers pending updates.",
   [SRC + "object_model/index/Index.cpp", SRC + "core/collections/range_tree/RangeTree.hpp", SRC + "core/collections/range_tree/RT_SortIterator.hpp", SRC + "core/collections/range_tree/RangeTreeBase.hpp"],
   [("pending updates", "Index::Builder"), ("range tree", "RangeTree"), ("range / sort iterators", "RT_Range, RT_SortIterator")],
   "every sequence up to the bounds executed on the real index; results compared with sorting / filtering a list"),
 P("C11", "Tag queries return exactly the matching objects",
   "A query over types, tags, alternatives, conjunctions, exclusions and nested sub-queries returns exactly the objects whose current tags and type satisfy it, each once, whatever the history of tagging, untagging, deleting, committing and re-opening; its length, truth value and membership agree with iterating it.",
   ["programs", "inputs"], "all tag histories up to a depth x all query expressions up to a size",
   "The tests evaluate one expression per test on one tag assignment.",
   [SRC + "object_model/tags/TagIndex.cpp", SRC + "object_model/tags/ObjectTagManager.cpp", SRC + "core/collections/full_text/FT_ANDIterator.cpp", SRC + "core/collections/full_text/FT_ORXIterator.cpp", SRC + "core/collections/full_text/FT_ANDNOTIterator.cpp", SRC + "core/collections/full_text/FT_BaseIndex.cpp"],
   [("tag index", "TagIndex::flush, TagIndex::find"), ("iterators", "FT_ANDIterator, FT_ORXIterator, FT_ANDNOTIterator")],
   "all assignments of a tag universe to objects and all query expressions up to a size evaluated by the real query engine and by set algebra"),
 P("C12", "Objects live exactly as long as something refers to them; identity is stable",
   "An object that is referred to from another stored object, a collection, an index, a tag or a live Python variable is never deleted and always is the same object with the same uuid; once nothing refers to it, it is deleted after the next commit or re-open, together with what only it referred to, and can no longer be fetched. The reported reference counts agree with the references that exist.",
   ["histories", "programs"], "all sequences of reference-creating and -dropping operations over a small object graph",
   "The tests check the disappearance of single objects along single edges.",
   [SRC + "workspace/GC0.cpp", SRC + "object_model/object/ObjectImplBase.cpp", SRC + "object_model/LangCache.cpp", SRC + "bindings/python/Memo.cpp"],
   [("garbage collection", "GC0"), ("reference counts", "ObjectBase::incRef/decRef"), ("identity", "LangCache")],
   "every graph history up to the depth executed on the real library, reachability computed by a reference model"),
 P("C13", "Weak references never keep objects alive and report expiry",
   "A weak reference or weak set gives the object while it exists, does not keep it alive, and afterwards reports it expired (never a different object), in the same prefix or across prefixes, and after re-opening.",
   ["histories"], "all sequences of weak / strong reference creation, deletion, commits and re-opening",
   "The tests follow one reference through one deletion.",
   [SRC + "object_model/value/ObjectId.cpp", SRC + "bindings/python/PyWeakProxy.cpp", SRC + "object_model/value/Member.cpp"],
   [("weak proxies", "PyWeakProxy"), ("weak sets", "dbzero/dbzero/weak_set.py")],
   "every history up to the depth executed on the real library against a reference model"),
 P("C14", "Prefixes are independent of each other",
   "Operations on one prefix never change what any other open or closed prefix holds; objects are created in the prefix selected for them, and collections, tags, indexes, snapshots, atomic blocks, commits and deletion of one prefix act on it alone. References to objects of other prefixes behave as documented.",
   ["programs", "histories"], "all interleavings of operations over two prefixes, open modes and close/re-open of either",
   "The tests touch two prefixes in a few fixed orders.",
   [SRC + "workspace/Workspace.cpp", SRC + "workspace/PrefixCatalog.cpp", SRC + "workspace/Fixture.cpp", SRC + "bindings/python/PyInternalAPI.cpp"],
   [("prefix selection", "Workspace::getCurrentFixture, db0.open"), ("fixture catalog", "FixtureCatalog, PrefixCatalog")],
   "every interleaving up to the depth executed on the real library, each prefix compared with its own model"),
 P("C15", "Class, singleton and enum definitions stay bound to their data",
   "Objects of classes related by inheritance, with fields added, removed or renamed over program versions, enums and singletons always read back with their class, values and identity; a singleton exists once per prefix and schema reflection reports the fields and their types in use.",
   ["histories", "programs"], "all sequences of program versions over a class menu",
   "The tests define each class once; the stored class model depends on the sequence of versions of the program that wrote the prefix.",
   [SRC + "object_model/class/Class.cpp", SRC + "object_model/class/ClassFactory.cpp", SRC + "object_model/class/Schema.cpp", SRC + "object_model/enum/EnumFactory.cpp"],
   [("class model", "Class, ClassFactory"), ("schema", "Schema"), ("enums", "EnumFactory, Enum")],
   "every sequence of program versions up to the depth executed in the real library against a reference model"),
 P("C16", "A copied prefix equals the original",
   "A copy of a prefix, made after any history of commits, opens as a valid prefix showing exactly the committed contents of the original at the time of copying, is writable, and neither affects nor is affected by the original.",
   ["histories", "inputs"], "all operation sequences before the copy, copying options and uses of the copy",
   "The tests copy two prefixes with fixed contents.",
   [SRC + "core/storage/copy_prefix.cpp", SRC + "core/storage/BDevStorage.cpp", SRC + "bindings/python/PyAPI.cpp"],
   [("copying", "copyPrefixImpl")],
   "every history executed, copied with the real library and compared with the model"),
 P("C17", "Concurrent threads and automatic commits never lose or corrupt data",
   "With several threads using the library and changes being committed automatically in the background, every operation takes effect once and completely, no commit exposes part of an atomic block or locked section, and whatever the interleaving the final and every committed state is one a sequential execution could have produced. Nothing deadlocks.",
   ["schedules"], "all interleavings of small multi-threaded programs at operation / lock granularity, with the background commit at every point",
   "The tests run threads freely for a while; only few interleavings occur and the ones that fail are rare.",
   [SRC + "workspace/FixtureThreads.cpp", SRC + "workspace/LockedContext.cpp", SRC + "workspace/AtomicContext.cpp", SRC + "core/threading/SafeRMutex.hpp"],
   [("autocommit", "AutoCommitThread"), ("locked sections", "LockedContext"), ("API lock", "PyAPI / WithRestrictedPython")],
   "all schedules of the listed programs at the granularity of library calls executed with real threads"),
 P("C18", "Results never depend on cache size or other tuning",
   "With any cache size, page cache pressure, or cache clearing at any moment, every operation gives the same result and the same data is stored.",
   ["configurations", "histories"], "all histories x cache sizes down to a few pages x cache clearing points",
   "The tests run nearly everything with the default cache, in which nothing is ever evicted.",
   [SRC + "core/memory/CacheRecycler.cpp", SRC + "core/memory/PrefixCache.cpp", SRC + "core/memory/DP_Lock.cpp", SRC + "object_model/LangCache.cpp"],
   [("eviction", "CacheRecycler"), ("page cache", "PrefixCache"), ("object cache", "LangCache")],
   "every history executed under each configuration of the menu and compared with the same reference model"),
 P("C19", "The allocator never hands out overlapping or lost space",
   "Every allocation returns a region of at least the requested size, disjoint from every live allocation and with a never-reused unique address where requested; freed space becomes available again; reloading the allocator from storage changes nothing.",
   ["programs"], "all sequences of allocations and frees over a menu of sizes, with re-opening",
   "The unit tests allocate and free in a few patterns and random orders.",
   [SRC + "core/memory/AlgoAllocator.cpp", SRC + "core/memory/BitspaceAllocator.hpp", SRC + "core/memory/SlabAllocator.cpp", SRC + "core/memory/MetaAllocator.cpp"],
   [("bitspace", "BitspaceAllocator"), ("slab", "SlabAllocator"), ("slab directory", "MetaAllocator")],
   "every sequence up to the depth executed by a C++ harness linked against the real allocators"),
 P("C20", "The ordered storage containers behave like their specification",
   "The sorted, indexed and growing containers that every collection is stored in give, for any sequence of single and bulk insertions, removals, look-ups, iterations and joins, exactly the result of an ideal ordered container, across all of their internal representations and after reloading.",
   ["programs", "inputs"], "all operation sequences over small key universes crossing every representation change",
   "The unit tests insert a few patterns; representation changes depend on the exact sequence of sizes.",
   [SRC + "core/collections/b_index/v_bindex.hpp", SRC + "core/collections/b_index/mb_index.cpp", SRC + "core/collections/sgtree/v_sgtree.hpp", SRC + "core/collections/vector/v_sorted_vector.hpp", SRC + "core/collections/vector/v_bvector.hpp"],
   [("morphing index", "MorphingBIndex"), ("block index", "v_bindex"), ("block vector", "v_bvector"), ("scapegoat tree", "v_sgtree")],
   "every sequence up to the depth executed by a C++ harness linked against the real containers"),
 P("C21", "Storage returns the right version of every page",
   "For any sequence of page writes (full or as differences) and transactions, reading any page at any state number returns exactly the bytes last written to it at or before that state, before and after re-opening and refreshing.",
   ["histories"], "all sequences of page writes / differences / commits over a small page universe, read at every state",
   "The unit tests write a few pages over a few states.",
   [SRC + "core/storage/BDevStorage.cpp", SRC + "core/storage/SparseIndex.cpp", SRC + "core/storage/DiffIndex.cpp", SRC + "core/storage/Diff_IO.cpp"],
   [("versions", "SparseIndex, DiffIndex, SparseIndexQuery"), ("differences", "Diff_IO, diff_buffer")],
   "every history up to the depth executed by a C++ harness linked against the real storage"),
 P("C22", "Query results compose: filtering, grouping, splitting and serializing agree",
   "Filtering, splitting, slicing, sorting, grouping, comparing across states and serializing a query give the same objects as applying the same step to the list of its results; a query serialized in one session and restored in another gives the same result as building it there.",
   ["programs", "inputs"], "all query pipelines up to a length over all small populations and histories",
   "The tests run each stage on its own on one population.",
   [SRC + "object_model/tags/ObjectIterable.cpp", SRC + "object_model/tags/SplitIterator.hpp", "dbzero/dbzero/fast_query.py", "dbzero/dbzero/select.py", SRC + "core/serialization/Serializable.cpp"],
   [("query objects", "ObjectIterable, ObjectIterator"), ("serialization", "Serializable, deserializeObjectIterable"), ("group_by", "dbzero/dbzero/fast_query.py")],
   "all pipelines up to the length evaluated on the real library and on lists"),
 P("C23", "The locks exclude whom they must and let everybody through",
   "The reader/writer and progressive locks on which concurrent access rests never let a writer run together with another holder, never lose a wake-up and never block for ever.",
   ["schedules"], "all interleavings of two or three threads over acquire / upgrade / release sequences",
   "The unit tests start threads and hope for interleavings.",
   [SRC + "core/threading/ProgressiveMutex.cpp", SRC + "core/threading/ROWO_Mutex.hpp", SRC + "core/threading/SafeRMutex.hpp"],
   [("resource flags", "ROWO_Mutex, RWTryMutex"), ("progressive mutex", "progressive_mutex")],
   "all schedules up to the bounds of the real lock code under a controlled scheduler"),
 P("C24", "State numbers and change notifications reflect exactly the commits that happened",
   "The state number of a prefix increases with every commit that changed something and never otherwise decreases or repeats for different contents; every retained state number can be opened and shows what was committed under it; waiting for a state returns once, and only once, it is reached.",
   ["histories", "schedules"], "all sequences of changes, no-op commits, atomic blocks and re-opening",
   "The tests compare two state numbers around one change.",
   [SRC + "workspace/Fixture.cpp", SRC + "workspace/MutationLog.cpp", SRC + "core/memory/PrefixImpl.cpp", SRC + "bindings/python/PyAPI.cpp"],
   [("state numbers", "PrefixImpl::getStateNum, Fixture::commit"), ("mutation log", "MutationLog")],
   "every history up to the depth executed on the real library against a reference model"),
 P("C25", "A prefix opened read-only is never changed",
   "Whatever is attempted on a prefix opened read-only, in any order, its files stay byte for byte what they were, mutating operations raise, reading keeps working and later sessions see the same data.",
   ["programs"], "all sequences of mutating and reading operations on every kind of object of a read-only prefix",
   "The tests try a few mutations.",
   [SRC + "bindings/python/PyInternalAPI.cpp", SRC + "workspace/Fixture.cpp", SRC + "core/storage/BDevStorage.cpp", SRC + "bindings/python/Memo.cpp"],
   [("access mode", "AccessType checks"), ("read-only storage", "BDevStorage open modes")],
   "every sequence up to the depth executed on the real library, file contents compared byte for byte"),
]


def check_of(pid):
    p = os.path.join(VERIF, "checks", pid.lower() + ".py")
    if not os.path.exists(p):
        return None
    res = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "TECHNIQUE"):
            res[n.targets[0].id] = ast.literal_eval(n.value)
    return res


def main():
    man = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": [],
           "notes": "lib/props.py writes this file and properties.jsonl; lib/mc.py is the explorer; see DESIGN.md"}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            p = dict(p)
            note, level, technique = p.pop("note"), p.pop("level"), p.pop("technique")
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
            c = check_of(p["id"])
            if c:
                assert c["LEVEL"] == level, (p["id"], c["LEVEL"], level)
                man["checks"].append({"property": p["id"], "quick_cmd": f"python3 lib/mc.py run {p['id']} --tier quick",
                                      "thorough_cmd": f"python3 lib/mc.py run {p['id']} --tier thorough",
                                      "evidence_file": f"evidence/{p['id']}.json", "technique": c["TECHNIQUE"], "level": level, "level_note": note})
            else:
                man["not_applicable"].append({"property": p["id"], "reason": "no check built yet (the technique applies; see DESIGN.md for the plan)"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(man["checks"]), "claimed")


if __name__ == "__main__":
    main()
