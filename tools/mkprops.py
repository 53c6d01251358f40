import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":["include/co_ecs/"+f for f in files],"mechanism":[{"name":n,"where":"include/co_ecs/"+w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"include/co_ecs/"+w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Entity handles are unique while alive and never resurrect once destroyed",
"At every moment no two live or reserved entities share a handle, and a handle is reported alive from its creation (or, if it was reserved, at the latest from the next synchronisation) until it is destroyed. A destroyed handle is never reported alive or issued again, no matter how identifiers are recycled afterwards, and a handle with an identifier that was never issued is not alive.",
["histories","inputs"],"every bounded history of create, reserve, synchronise, destroy (including repeated destroy of stale handles), for an arbitrary probed handle value",
"The tests run a few fixed histories; uniqueness and staleness depend on the interleaving of creation, recycling and reservation over the whole history, and the probed handle is any 64-bit value.",
["detail/handle.hpp","entity.hpp","base_registry.hpp"],[("handle_pool::create/recycle/reserve/flush","detail/handle.hpp"),("base_registry::create_impl/destroy/reserve/sync","base_registry.hpp")],
[("_generations","current generation per identifier","detail/handle.hpp"),("_free_ids/_free_cursor","recyclable identifiers and the cursor concurrent reservation moves","detail/handle.hpp")],["alive()","create()","reserve()"])
p("C02","Every live entity keeps exactly the components and values last given to it",
"After any sequence of operations each live entity has exactly the component types that were attached and not removed, each holding the value last written to it, exactly as in a plain per-entity map of values. An operation on one entity never changes what any other entity has or holds, wherever either is stored.",
["histories","inputs"],"every bounded history of create, set (new and overwrite), remove, destroy over a small set of component types (small, empty and large, so that storage spills over several storage blocks) and arbitrary component values",
"Storage moves entities between tables and fills the gap with another entity at every structural change; tests sample a few positions, the fault appears only for particular positions (last element, last element of a full block, single element) in particular histories.",
["base_registry.hpp","registry.hpp","archetype.hpp","chunk.hpp","entity_ref.hpp"],[("create_impl/set_impl/remove/destroy","base_registry.hpp"),("archetype::emplace/move/swap_erase","archetype.hpp"),("chunk::swap_erase/move/emplace_back","chunk.hpp")],
[("_entity_archetype_map","where each entity is stored","base_registry.hpp"),("_chunks","fixed-size blocks of one component set","archetype.hpp")],["get<C>()","has<C>()","alive()","size()"])
p("C03","Each component object is destroyed exactly once and nothing leaks",
"Every component object that the library constructs, moves or copies into storage is destroyed exactly once: when it is removed or overwritten, when its entity is destroyed, or when the registry goes away. No component is read, moved from or destroyed before it was constructed or after it was destroyed, and when the registry is gone all of its memory has been released.",
["histories"],"every bounded history of create, set, remove, destroy, clone, copy, move between registries and registry destruction, with components that count their own lifetimes and own heap memory",
"Tests check values, not lifetimes; a leaked or doubly destroyed component shows only with owning component types in particular positions of particular histories.",
["chunk.hpp","archetype.hpp","base_registry.hpp","type_meta.hpp"],[("chunk destructor/pop_back/swap_erase/move/copy","chunk.hpp"),("type_meta function table","type_meta.hpp"),("set/remove","entity_ref.hpp")],None,["constructor/destructor counts per object","live heap allocations"])
p("C04","Component storage never overlaps, misaligns or leaves its block",
"For any combination of component sizes and alignments, the storage of every component of every entity up to the capacity the library admits lies inside the allocated block, is aligned for its type, and overlaps no other component's storage. A combination too large for even one entity is rejected with the documented error instead of being stored.",
["inputs","configurations"],"arbitrary sizes (up to beyond the block size) and power-of-two alignments of every component of a set of bounded cardinality, and an arbitrary entity index below the admitted capacity",
"Tests use a handful of concrete structs; alignment padding and capacity arithmetic go wrong only for particular size/alignment combinations.",
["archetype.hpp","chunk.hpp","detail/bits.hpp"],[("get_max_size/init_blocks/add_block","archetype.hpp"),("chunk_buffer allocation","chunk.hpp"),("mod_2n","detail/bits.hpp")],[("_max_size","admitted capacity per block","archetype.hpp")],["addresses handed to visitors and returned by get<C>()"])
p("C05","A query visits every matching live entity exactly once and nothing else",
"Iterating a view, each, chunks or the parallel form presents each live entity that has all the requested components exactly once, with references to that very entity's components, and presents no other entity; size() and single() agree with that set. Writing through a mutable query is observed by later reads of the same entity.",
["histories","inputs"],"every bounded history of structural operations followed by queries over every combination of requested components, with arbitrary values",
"The visited set depends on how the whole previous history laid entities out over tables and blocks (empty tables, emptied blocks, partially filled blocks); tests iterate after simple creations only.",
["view.hpp","registry.hpp","archetype.hpp","chunk.hpp","view_arguments.hpp"],[("view::each/chunks/single/par_each","view.hpp"),("chunk_view iterators","chunk.hpp"),("archetypes iteration","archetype.hpp")],None,["visited entity list","component references"])
p("C06","Misuse is reported by the documented exception and leaves the registry intact",
"Accessing a dead entity, requesting a component an entity does not have, and storing components too large for a storage block are each reported by the corresponding documented exception, for every way of performing the access, and never terminate the process. After such a failed operation all live entities, their components, queries and subsequent operations behave as if it had never been attempted.",
["histories","inputs","fault_sequences"],"every bounded history with failing operations (dead handle, absent component, oversized component) interleaved at arbitrary points with succeeding ones, for arbitrary stale handles",
"Tests check that a few calls throw; they do not continue to use the registry afterwards over all histories, where half-completed insertions show.",
["base_registry.hpp","entity_ref.hpp","archetype.hpp","chunk.hpp","exceptions.hpp"],[("ensure_alive/get_location","base_registry.hpp"),("component_fetch","chunk.hpp"),("ensure_archetype*","archetype.hpp"),("has/archetype accessors","entity_ref.hpp")],None,["exception type","registry state after the failure"])
p("C07","Cloning, copying and moving entities preserves components in both registries",
"Cloning or copying an entity yields an entity (a new one or the given placeholder) with equal, independent copies of exactly its components and leaves the source unchanged; moving yields one with exactly its components in the destination and leaves the source handle dead. All other entities of both registries keep their components, values and reachability by queries.",
["histories","inputs"],"every bounded history of two registries with create, destroy, clone, copy, move, into fresh and into placeholder entities, with arbitrary values",
"Tests transfer single entities; transfers relocate a third entity in the source and append in the destination, which depends on both histories.",
["base_registry.hpp","archetype.hpp","chunk.hpp","entity_ref.hpp"],[("move/copy/clone","base_registry.hpp"),("archetype::move/copy","archetype.hpp"),("chunk::move/copy","chunk.hpp")],None,["get<C>() in both registries","entity stored with the components"])
p("C08","Deferred commands take effect exactly once, in order, as if run immediately",
"Commands recorded on a command writer take effect at the next flush exactly once and in recording order for that thread, with the same result as performing the operations directly, including on entities created by earlier commands. Nothing takes effect before the flush, a flush leaves the recorder empty and releases all staged data, and commands recorded by a thread that has since ended are still applied.",
["histories","schedules","inputs"],"every bounded program of create, set, remove, destroy and custom commands with arbitrary arguments split over flushes and threads (including threads that ended before the flush)",
"Tests record a few commands on a live thread; order, repetition over several flushes, recorder storage growth, staging release and thread lifetime vary over all programs.",
["command.hpp","detail/allocator/temp_allocator.hpp","detail/allocator/stack_allocator.hpp","detail/allocator/linear_allocator.hpp"],[("command_buffer/command_writer","command.hpp"),("command_* run methods","command.hpp"),("allocators","detail/allocator/stack_allocator.hpp")],[("thread-local buffers","commands recorded by each thread","command.hpp")],["registry state after flush","staging registry size"])
p("C09","Entities reserved concurrently are distinct and usable after synchronisation",
"Handles reserved by any number of threads running concurrently are pairwise distinct and different from every live entity, whether taken from recycled or fresh identifiers. After synchronisation each of them is alive, and entities created later never coincide with them.",
["schedules","histories"],"every interleaving of bounded threads each reserving several handles, from any bounded preceding history of the pool, under the C++ memory model for the atomics used",
"Tests reserve from one or a few real threads in one schedule; a duplicate needs two reservations to interleave at the boundary between recycled and fresh identifiers.",
["detail/handle.hpp","base_registry.hpp"],[("handle_pool::reserve/flush","detail/handle.hpp"),("reserve/sync","base_registry.hpp")],[("_free_cursor/_next_id","atomic cursors","detail/handle.hpp")],["reserve()","alive() after sync()"])
p("C10","Systems with conflicting accesses never run in the same parallel batch",
"Two systems are allowed to run at the same time only if neither may write a component, or the registry, that the other may read or write; this decision is symmetric and does not depend on registration order. Every system that is rejected from a batch is still scheduled in another batch.",
["programs","configurations","inputs"],"arbitrary access declarations (component reads, component writes, whole-registry read or write, none) of a bounded number of systems over a bounded number of component types",
"Tests try a few pairs; the rule is over every pair of access declarations and every grouping of several systems.",
["system/access.hpp","system/stage.hpp","system/system.hpp"],[("access_pattern_t::allows","system/access.hpp"),("stage::create_executor","system/stage.hpp"),("system argument traits","system/system.hpp")],None,["batch composition","observed overlap of system runs"])
p("C11","Every scheduled system runs exactly once per pass, in stage order",
"Each run of a schedule executes every registered system exactly once, all systems of a stage complete before any system of the next stage starts, and initialisation systems run exactly once before them. Commands issued by systems take effect when the run ends: no stage of that run observes them, everything after the run does. Repeated runs behave alike.",
["programs","schedules","histories"],"every bounded schedule (stages, worker and main-thread systems, conflicting or not, issuing commands) run a bounded number of times, over thread interleavings with bounded preemptions",
"Tests build a few fixed schedules; the number of executions depends on how systems were grouped into batches, on main-thread systems and on which thread runs what.",
["system/schedule.hpp","system/stage.hpp","system/system.hpp","command.hpp","thread_pool/thread_pool.hpp"],[("stage_executor::run","system/stage.hpp"),("schedule::create_executor/run_once","system/schedule.hpp"),("command_buffer::flush","command.hpp")],None,["execution log of systems","registry state between stages"])
p("C12","The work-stealing queue delivers every task exactly once under any schedule",
"Every item pushed by the owner is obtained exactly once, either by the owner popping or by one of the thieves stealing, never lost, duplicated or invented, for every interleaving and every execution allowed by the memory model, including while the queue grows. Without concurrency the owner pops in last-in-first-out order and thieves take the oldest item.",
["schedules","histories","inputs"],"every interleaving and every C++-memory-model execution of bounded owner programs (push, pop, growth) with bounded thieves; arbitrary item values; bounded sequential histories",
"A lost or duplicated item needs a specific interleaving or reordering in a few instructions; real-thread tests on one x86 machine never show most of them.",
["detail/work_stealing_queue.hpp"],[("push/pop/steal","detail/work_stealing_queue.hpp"),("array growth","detail/work_stealing_queue.hpp")],[("_top/_bottom/_array","the deque","detail/work_stealing_queue.hpp")],["values returned by pop and steal"])
p("C13","Waiting for a task returns only after it and all its children finished, visibly",
"A wait on a task returns only after the task's function and all of its (transitive) children completed, and everything they wrote is visible to the waiting thread without further synchronisation. A task's completion is recorded exactly once, whichever threads execute the children.",
["schedules"],"every interleaving and every C++-memory-model execution of a parent with bounded children completed on different threads, and a waiting thread",
"The double completion or missing visibility needs two children to finish within a few instructions of each other, or a weakly ordered execution.",
["thread_pool/task.hpp","thread_pool/thread_pool.hpp"],[("task_t::execute/finish/is_completed","thread_pool/task.hpp"),("worker wait","thread_pool/thread_pool.hpp")],[("_unfinished","remaining work counter","thread_pool/task.hpp")],["completion flag","writes of the task function"])
p("C14","A parallel loop applies the function exactly once to every element",
"For any range length (including empty), any number of workers and any worker schedule, the parallel loop calls the function exactly once for each element and for nothing else, and returns only after all calls completed.",
["inputs","schedules","configurations"],"every range length up to a bound, 1..3 workers, thread interleavings with bounded preemptions",
"The partitioning depends on length and worker count; tests use a couple of lengths on the machine's own core count.",
["thread_pool/parallel_for.hpp","thread_pool/thread_pool.hpp","thread_pool/task.hpp"],[("parallel_for","thread_pool/parallel_for.hpp"),("thread_pool::wait/submit","thread_pool/thread_pool.hpp")],None,["call count per element"])
p("C15","The hash map behaves as a map for every hash function and history",
"For any history of insertions, lookups, erasures, clears, copies and moves, with any hash values (including all equal), the hash map holds exactly the key/value pairs of a reference map: lookups, sizes and one full iteration agree with it, across every internal rehash. Every stored element is destroyed exactly once.",
["histories","inputs"],"every bounded history of operations with arbitrary keys, arbitrary hash values and arbitrary initial capacities",
"Probe sequences, displacement and back-shift on erase depend on the pattern of hash collisions over the history; tests use integer keys with an identity-like hash.",
["detail/hash_table.hpp","detail/hash_map.hpp"],[("insert/emplace/erase/find/rehash","detail/hash_table.hpp")],[("_buckets/_info","storage and probe distances","detail/hash_table.hpp")],["find/contains/size/iteration"])
p("C16","The sparse map behaves as a map over its whole key range",
"For any history of insertions, assignments, erasures, clears, copies and moves with keys from the whole range of the key type, the sparse map holds exactly the pairs of a reference map: lookups (also of never-inserted or stale keys), sizes and iteration agree with it. Every stored element is destroyed exactly once.",
["histories","inputs"],"every bounded history of operations with arbitrary keys of the key type including its extreme values",
"Stale index entries left behind by erasure and growth matter only for particular key patterns and histories.",
["detail/sparse_table.hpp","detail/sparse_map.hpp"],[("emplace/erase/find/contains","detail/sparse_table.hpp")],[("sparse/dense arrays","index and packed storage","detail/sparse_table.hpp")],["find/at/contains/size/iteration"])
p("C17","The dynamic bitset behaves as an unbounded set of bits",
"For any history of setting and clearing bits the bitset reports set exactly the bits last set, for indices beyond its current storage as well; containment, equality and hash agree with the mathematical set of set bits, however each bitset was built.",
["histories","inputs"],"every bounded history over two bitsets with arbitrary bit indices up to a bound spanning several words, and arbitrary initial storage",
"Equality, subset tests and hashing must ignore how much storage each operand happens to have; tests compare bitsets built alike.",
["detail/dynamic_bitset.hpp","component.hpp"],[("set/test/contains/operator==/hash","detail/dynamic_bitset.hpp")],None,["test/contains/==/hash"])
p("C18","The linear allocator hands out disjoint, aligned memory within its buffer",
"Every block the linear allocator returns for any size and alignment request lies entirely inside its buffer, is aligned as requested and does not overlap any block returned since the last reset; requests that do not fit are refused without disturbing earlier blocks.",
["histories","inputs"],"every bounded history of allocations with arbitrary sizes and alignments over an arbitrary buffer size and base address",
"The boundary arithmetic fails only for particular remaining space/size/alignment combinations.",
["detail/allocator/linear_allocator.hpp"],[("allocate/reset","detail/allocator/linear_allocator.hpp")],None,["returned pointers"])
p("C19","The stack allocator hands out disjoint aligned blocks and reclaims in LIFO order",
"Every block the stack allocator returns lies inside its buffer, is aligned as requested and overlaps no block still allocated; requests that do not fit are refused without touching memory outside the buffer. Releasing blocks in reverse order makes exactly their space available again, also after the allocator object was moved.",
["histories","inputs"],"every bounded history of allocations, LIFO releases and moves with arbitrary sizes and alignments and arbitrary buffer size and base address",
"Per-block bookkeeping is written inside the buffer; it is wrong only when the buffer is exactly or almost full, for particular alignments.",
["detail/allocator/stack_allocator.hpp","detail/allocator/temp_allocator.hpp"],[("allocate/deallocate","detail/allocator/stack_allocator.hpp")],None,["returned pointers","bytes written around the buffer"])
p("C20","Component identity and component sets are consistent",
"Each component type has one identifier for the whole run, different types have different identifiers, and the recorded size, alignment and operations are those of the type, whatever the order of first use. A component set contains exactly the types inserted and not erased, and two sets are equal, and hash alike, exactly when they contain the same types, regardless of insertion order.",
["histories","inputs"],"every bounded order of first use of arbitrary type names, and every bounded history of insertions and erasures over more component types than fit one storage word",
"Identifiers are assigned by order of first use across the program; tests see one order.",
["component.hpp","type_meta.hpp","detail/dynamic_bitset.hpp","archetype.hpp"],[("component_id generation","component.hpp"),("component_set/component_meta_set","component.hpp"),("type_meta::of","type_meta.hpp")],None,["component ids","set equality","archetype chosen for a component set"])
p("C21","Threads that leave a registry's structure alone can use it at the same time",
"While no entity is created or destroyed, no component added or removed and no synchronisation runs, any number of threads may at once look up entities, test and read components, run queries (also through one shared view object) and reserve entities, and one may write the values of a component type as long as no other thread accesses that type. No data race occurs, each thread sees exactly what it would see alone, and afterwards every entity has exactly the values written.",
["schedules","inputs"],"every assignment of bounded operation lists to two or three threads over arbitrary small populations, under every schedule within the preemption bound, with happens-before judged by the memory orders in the source",
"The tests use a registry from several threads only inside one schedule; a hidden write in a reading operation (a cache, a lazy update) is a race that no single-threaded assertion sees and that rarely changes a value.",
["base_registry.hpp","registry.hpp","view.hpp","archetype.hpp","chunk.hpp","entity_ref.hpp","detail/handle.hpp"],[("get_location/alive","base_registry.hpp"),("const lookups and references","entity_ref.hpp"),("queries","view.hpp"),("reserve","detail/handle.hpp")],None,["get<C>()","each()","reserve()","data races"])
p("C22","Registries are independent of each other",
"What happens in one registry never shows in another: creating, changing, querying, destroying entities or ending a registry's life leaves every other registry, and every later one at the same place in memory, with exactly the entities, components and values it would have had alone. Different threads may each use a registry of their own at the same time without any synchronisation and without data races.",
["histories","schedules","inputs"],"every bounded interleaving of operations on two registries, every bounded life cycle of two or three registries, and every assignment of bounded operation lists to two or three threads with a registry each, under every schedule within the preemption bound",
"Anything kept outside the registry object (a static scratch set, a cache keyed by address or by type) works as long as one registry is used from one thread, which is what the tests do.",
["archetype.hpp","base_registry.hpp","registry.hpp","chunk.hpp","view.hpp","component.hpp","detail/handle.hpp"],[("_search_component_set","archetype.hpp"),("entity pool","detail/handle.hpp"),("component identity","component.hpp")],None,["all registry operations","data races"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
