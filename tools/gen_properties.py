#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P=[]
SL="crates/crabslab/src/slab.rs"; AR="crates/crabslab/src/array.rs"; IDF="crates/crabslab/src/id.rs"; OF="crates/crabslab/src/offset.rs"
PR="crates/crabslab/src/impl_slab_item/primitives.rs"; MO="crates/crabslab/src/impl_slab_item/mod.rs"; TU="crates/crabslab/src/impl_slab_item/tuples.rs"; GL="crates/crabslab/src/impl_slab_item/glam.rs"
DE="crates/crabslab-derive/src/lib.rs"; AL="crates/craballoc/src/slab.rs"; VA="crates/craballoc/src/value.rs"; RU="crates/craballoc/src/runtime.rs"; RA="crates/craballoc/src/range.rs"; WG="crates/craballoc/src/slab/wgpu_slab.rs"
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Every slab item reads back exactly as it was written",
 "Writing any value of any supported item type (integers of every width, floats bit for bit, bools, ids, arrays, options, fixed-size arrays, tuples of up to 12 items, phantom data, the glam vector, quaternion and matrix types, and any nesting of these) at any index where it fits and reading it back from that index yields the same value. This holds on every kind of slab (word slice, vector, CpuSlab), whatever the slab held before and whatever is written elsewhere in it.",
 ["inputs"],"All item types, all values, all in-range indices, all slab kinds and prior contents.",
 "Tests round-trip a handful of values of a few types at index 0 of a fresh slab; sign bits, high halves of wide integers, NaN payloads, odd offsets and nested types are not reached.",
 [PR,MO,TU,GL,DE,SL,IDF,AR],[("SlabItem::read_slab/write_slab implementations",PR),("tuple implementations from impl_slabitem_tuples!",TU),("Slab::read/write_indexed",SL)])
p("C02","Reads and writes touch exactly the words an item occupies",
 "Writing an item that fits at index i changes no word outside [i, i+SLAB_SIZE) and returns i+SLAB_SIZE; reading an item at i depends on no word outside that interval. Writing a slice of items places them consecutively, each exactly SLAB_SIZE words after the previous one, and returns the index following the last one.",
 ["inputs"],"All item types and values (every enum variant, Some and None), all indices, all slab contents.",
 "A neighbour is only corrupted for a particular type, variant and position; tests compare single values, never the words around them.",
 [PR,MO,TU,GL,DE,SL],[("write_slab return values",PR),("Option::write_slab padding",MO),("Slab::write_indexed_slice",SL)])
p("C03","Out-of-bounds reads yield the default and writes change nothing",
 "`contains` is true exactly when the whole item lies within the slab; a checked read of an item that is not contained (including the null id) returns the type's default and a contained one returns what is stored, likewise for every element of a vector read. A write, a slice write or an array write that does not fit entirely returns the same index and leaves every word of the slab unchanged; none of these ever panics.",
 ["inputs"],"All slab lengths (including empty and shorter than the item), all indices up to and around the end, the null id, all item sizes including zero, slices and arrays of all lengths.",
 "Tests check `contains` on one three-word slab and never read or write out of bounds; the failing combinations are boundary cases of length, size and index.",
 [SL,IDF,AR],[("Slab::contains",SL),("Slab::read, read_vec, write_indexed, write_indexed_slice, write_array",SL)])
p("C04","Any words decode to a valid value without panicking",
 "Reading any item type from arbitrary words (as a GPU might leave them) never panics and yields a valid value: an unknown enum discriminant yields the enum's default, an option whose tag is not 1 is None, a bool word other than 1 is false, narrow integers take the low bits. Writing the decoded value and reading it again yields the same value.",
 ["inputs"],"All word contents, all item types.",
 "Tests only decode words that were produced by encoding; hostile tags and high bits are never tried.",
 [PR,MO,DE],[("bool/narrow integer read_slab",PR),("Option::read_slab tag",MO),("derived enum read_slab fallback arm",DE)])
p("C05","A growable slab appends without disturbing what it already holds",
 "Every allocation or append on a growable slab returns an id or array located exactly at the previous end of the slab, extends the length by exactly the size of the items, zero-fills preallocated words, and changes no earlier word. Reserving capacity makes the capacity at least what was requested, never shrinks it, never changes length or contents, and never panics.",
 ["histories"],"All sequences of append, append_array, allocate, allocate_array, write and reserve_capacity with items of all sizes (zero included) and arrays of all lengths (empty included).",
 "Tests append two or three values to one slab; sequences interleaving reservations, empty arrays and preallocation are not exercised.",
 [SL],[("GrowableSlab::allocate/allocate_array/append/append_array/maybe_expand_to_fit",SL),("GrowableSlab for Vec<u32>",SL)])
p("C06","Array handles address exactly their own elements",
 "An array of n items at index i yields, through `at`, iteration, vector reads and sub-slabs, exactly the n consecutive items that start at i, and the null id for any index past the end; conversion to a word array covers exactly the same words, the union of two word arrays that are not empty is the smallest array covering both, and a word array contains exactly the indices it covers. Writing an array of data touches only the words of that array, and does nothing when there is less data than the array holds.",
 ["inputs"],"All array positions and lengths that end within the address range of 32 bits (including empty and null), all item sizes, all data lengths, all pairs of word arrays.",
 "Tests use `at` and read_vec on one in-bounds array each; empty, null, zero-sized and mismatched-length cases are not covered.",
 [AR,SL],[("Array::at/iter/into_u32_array/sub_slab/contains_index/union",AR),("Slab::write_array/read_vec",SL)])
p("C07","Derived items have the documented layout and field offsets",
 "A derived struct occupies the sum of its fields' sizes with the fields stored in declaration order; a derived enum occupies one word for the variant's position plus its largest variant. Each derived offset constant added to an id addresses exactly that field, so that reading or writing through it reads or writes that field and nothing else, and each derived size constant is that field's size; derived items round-trip every variant and field.",
 ["programs","inputs"],"All struct and enum definitions (unit, tuple, named, generic, nested) and all field values.",
 "Tests derive a few fixed types; layout mistakes show only for particular shapes, such as variants of different sizes in a particular order or fields after multi-word fields.",
 [DE,OF],[("derive_from_slab_struct",DE),("derive_from_slab_enum",DE),("Offset",OF)])
p("C08","The derive accepts every struct and enum whose fields are slab items",
 "Deriving the slab item trait compiles for every struct (unit, tuple or named) and every enum with at least one variant and a default whose fields are slab items (also when they refer to the type itself through an id or an array), whatever the names of types, fields, variants and type parameters (including raw identifiers and names such as index, slab, hash or Default; not names that shadow a primitive type or the crate), with type parameters with or without bounds, with or without offsets, and whether or not the trait itself is imported.",
 ["programs"],"All definitions in the supported grammar, all identifiers.",
 "Tests compile about ten hand-picked definitions with unremarkable names.",
 [DE],[("generated bindings and paths",DE),("where-clause generation",DE)])
p("C09","Ids and offsets behave as plain slab indices",
 "An id compares, orders, hashes and converts exactly as its index does, the null id is the default and the only id that is none; adding an integer or an offset on either side yields the id at the sum of the indices, and chained offsets add up. An id converts to an array of length one at the same index.",
 ["inputs"],"All index values and offsets (sums in range), all combinations of operand order.",
 "Tests compare two ids and add one offset; operand order, ordering at extremes and hashing are not covered.",
 [IDF,OF,AR],[("Id operators and comparisons",IDF),("Offset operators",OF)])
p("C10","A commit makes the buffer agree with every value",
 "After a commit the buffer holds, at the location of every value and array element that is still owned by someone, the most recent value given to it before the commit, whichever way it was given (creation, set, modify, write guard, array item, GPU-only handle, any clone, an upgraded weak handle). No update is lost, applied to a wrong location, or superseded by an older one, however many updates were queued in between.",
 ["histories"],"All operation histories over values and arrays of all sizes, with commits at any points.",
 "Tests follow a few fixed scripts; lost or misordered updates need particular sequences such as overlapping item updates, or a drop of a clone between a set and a commit.",
 [AL,VA,RA,RU],[("drain_updated_sources and commit",AL),("Gpu::set, GpuArray::set_item, WeakGpuRef::get_update",VA),("RangeManager<SlabUpdate>",RA)])
p("C11","Live allocations never overlap and always fit in the buffer",
 "At every moment the locations of all values and arrays that are still owned by someone are pairwise disjoint, and after every commit they all lie within the buffer. A value's location never changes during its lifetime.",
 ["histories"],"All histories of creating and dropping values and arrays of all sizes (zero included), commits and defragmentations.",
 "Overlap arises only after particular patterns of freeing, partial reuse and regrowth; tests reuse four one-word slots once.",
 [AL,RA],[("allocate/allocate_array",AL),("RangeManager::remove/add_range",RA)])
p("C12","The buffer changes only on commit and only where updates were queued",
 "The contents of the buffer change only during a commit, and then only at words of values or array items that were created or modified since the previous commit and are still owned; every other word keeps what it held, including the words of dropped values and words that the GPU has written. A commit with nothing queued changes nothing, and inspecting, cloning, dropping, locking without writing, or defragmenting never changes the buffer.",
 ["histories"],"All operation histories with the buffer observed after every step.",
 "Tests check the written value, not the rest of the buffer, and never write foreign data into the buffer first.",
 [AL,VA,RA,RU],[("commit",AL),("RangeManager<SlabUpdate>::add_range, SlabUpdate::union",RA),("buffer_write",RU)])
p("C13","All freed space is reusable after a commit, fully coalesced",
 "Once the last owner of a value or array has dropped it and a commit has run, its words are available again, adjacent free words form one region whatever the order in which they were freed, and an allocation that fits in a free region is placed in free words instead of growing the slab. After everything has been dropped and committed, the whole slab can be allocated again as one array without growth.",
 ["histories"],"All histories of allocations of all sizes, drops in any order, commits and defragmentations, partial reuse of free regions.",
 "Tests free four equal slots in one order; leaks and fragmentation depend on the order of frees, on sizes and on partial reuse.",
 [RA,AL,VA],[("RangeManager::add_range/remove",RA),("recycling in drain_updated_sources, defrag",AL),("Drop for Gpu/GpuArray",VA)])
p("C14","Memory is never reused while anyone still owns it",
 "As long as at least one owner of a value or array exists (the original, a clone, the GPU-only remainder, or a handle upgraded from a weak one), no other allocation receives any of its words and its data stays in the buffer across commits, resizes and defragmentations. Weak handles do not keep it alive.",
 ["histories"],"All histories of cloning, converting to GPU-only, downgrading, upgrading and dropping in any order, interleaved with commits and new allocations.",
 "Tests drop sole owners only; a wrong ownership count needs a particular order of clone, convert and drop around a commit.",
 [AL,VA],[("strong count check in drain_updated_sources",AL),("Clone/Drop/into_gpu_only/upgrade",VA)])
p("C15","Growing the buffer preserves its contents and happens only when needed",
 "When a commit replaces the buffer, the new one is larger than the old one and starts with all of the old contents; the old buffer's contents stay as they were. The buffer is replaced only by the first commit and by commits after allocations that do not fit in it, it never shrinks, and its length is at least one word.",
 ["histories"],"All histories of allocations of all sizes and counts, commits in between, including words of the buffer that belong to nobody or were written by the GPU.",
 "Tests resize once with one value; contents without pending updates, GPU-written words and repeated growth are not observed.",
 [AL,RU],[("maybe_expand_to_fit/reserve_capacity/recreate_buffer",AL),("buffer_copy",RU)])
p("C16","Buffer handles know whether they are current and can catch up",
 "A buffer handle is valid exactly as long as the allocator still uses the same underlying buffer; synchronizing it returns true exactly when it was invalid and leaves it on the allocator's current buffer. Creation times strictly increase with every replacement, `is_new_this_commit` is true exactly between the commit that created the handle's buffer and the next commit, there is no buffer before the first commit, and a commit returns the current buffer.",
 ["histories"],"All histories of commits (growing or not) with handles obtained, cloned and synchronized at any points.",
 "Tests hold one handle across one resize; handles that skip several resizes and clones synchronized at different times are not covered.",
 [AL],[("SlabBuffer::is_invalid/is_new_this_commit/update_if_invalid",AL),("commit, get_buffer",AL)])
p("C17","Queued updates are reported until committed, and looking is harmless",
 "After a value or array is created, modified or finally dropped, the allocator reports queued updates and lists the id of that value, until the next commit; immediately after a commit it reports none. Asking never consumes anything: repeated questions get the same answer, and a commit after asking has the same effect as without asking. Ids listed always belong to values that were created, modified or dropped since the last commit, and are unique per value.",
 ["histories"],"All operation histories with the questions asked at any points and any number of times.",
 "Tests ask twice on a fresh allocator; asking between queueing and commit, several times or after partial drains is not covered.",
 [AL,VA],[("get_updated_source_ids/has_queued_updates/update_queue",AL),("notifier indices",VA)])
p("C18","CPU-side values read back what was last written through any handle",
 "A hybrid value or array returns the most recently written value through every clone, immediately and independently of commits; modify and set_item return the closure's result or the previous item, out-of-range array indices return None and change nothing, write guards publish their mutation when dropped and nothing when only read. Reference counts equal the number of owners, and lengths, ids and arrays reported by every handle agree.",
 ["histories"],"All histories of get, set, modify, guard, item access, clone and drop, in any order with commits.",
 "Tests cover one guard and one modify; the interplay of clones, guards and commits and the array accessors are not covered.",
 [VA],[("Hybrid/HybridArray/HybridWriteGuard",VA)])
p("C19","Weak handles upgrade exactly while an owner exists",
 "A weak handle upgrades exactly as long as an owner of the part it refers to exists (for a weak hybrid: both its CPU and its GPU part), the upgraded handle refers to the same value, location and id and counts as an owner, and updates through it are committed. Weak handles report the id and the number of owners and never keep memory from being recycled.",
 ["histories"],"All histories of downgrade, upgrade, clone, conversion to GPU-only, drop and commit.",
 "No test uses weak handles.",
 [VA,AL],[("WeakGpu/WeakHybrid upgrade and counts",VA),("WeakGpuRef in update_sources",AL)])
p("C20","Range bookkeeping is exact set arithmetic",
 "A range manager represents exactly the set of words added minus those removed, in ranges that are pairwise disjoint and not mergeable, whatever the order of insertion; removing n words yields n contiguous words out of that set, or nothing only if no contiguous n are available. A manager of updates yields, for every word, the last value added for it, and no word that was never added.",
 ["inputs","histories"],"All sequences of added and removed ranges and of overlapping, adjacent, nested and disjoint updates.",
 "One test checks the intersection of one pair of ranges.",
 [RA,RU],[("RangeManager::add_range/remove",RA),("SlabUpdate::intersects/union, Range::intersects/len",RA)])
p("C21","Handles outlive their allocator safely and everything is released",
 "Values, arrays, weak handles and buffer handles stay usable on the CPU side without panicking after every clone of their allocator is gone, in any order of dropping. Once the allocator and all handles are dropped, every buffer that was created has been released, and replaced buffers are released as soon as no handle refers to them.",
 ["histories"],"All orders of dropping allocator clones, values, arrays, weak and buffer handles, and all operations afterwards.",
 "Tests drop everything implicitly at the end of scope and never look.",
 [AL,VA],[("SlabBuffer/SourceSlabBuffer sharing",AL),("notification after the channel closed",VA)])
p("C22","The wgpu backend does what the CPU backend does, within wgpu's rules",
 "Any history of operations leaves a wgpu buffer with the same contents and size as a CPU buffer after each commit, and hands out the same ids. Every wgpu call made along the way satisfies wgpu's validation rules (usages, alignment, bounds, mapping), with any default usages.",
 ["histories","configurations"],"All histories of operations and commits, run against both backends.",
 "The tests cannot run wgpu without a GPU; none does.",
 [RU,WG],[("IsRuntime for WgpuRuntime",RU)])
p("C23","Reading back any range returns exactly those words",
 "Reading any range (open, closed, half-open, empty, excluded bounds) of a committed slab returns exactly the words of the buffer in that range, an open end meaning everything the slab has allocated that is in the buffer, and reading a typed array returns its elements; reading before the first commit is an error, not a panic. This holds for both backends and regardless of pending updates and of allocations made since the last commit.",
 ["inputs","histories"],"All range bounds, all array positions, lengths and item types, at all points of a history.",
 "Reading needs a GPU for wgpu and no test calls the CPU version.",
 [RU,WG],[("range_to_indices_and_len, buffer_read",RU),("SlabAllocator::read/read_array",WG)])
p("C24","Every feature configuration builds and behaves the same",
 "The allocator builds with and without wgpu support and the slab crate with and without glam support, and in each configuration histories of operations on the parts that remain have the same results.",
 ["configurations","histories"],"All combinations of the crates' cargo features that select functionality.",
 "Tests only build the default features.",
 [RU,AL,MO,"crates/craballoc/Cargo.toml"],[("cfg(feature = \"wgpu\")",RU),("cfg(feature = \"glam\")",MO)])
p("C25","A runtime is asked for exactly what a commit needs",
 "The allocator calls its runtime only from within a commit. A commit creates at most one buffer, with the allocator's label and usages, with room for at least one word and for everything that is allocated, and larger than the buffer it replaces; if and only if it replaces one it copies the whole old buffer into the new one, once, before anything is written. All writes go to the buffer that is current after the commit, within its bounds; each update holds as many words as the range it names, covers only words of values and array items that were created or modified since the last commit, and no two of them overlap.",
 ["histories"],"All histories of creating, modifying and dropping values and arrays, commits, growth, and questions about updates and buffers in between, observed through a runtime that records its calls.",
 "The provided CPU runtime forgives calls in the wrong order, to the wrong buffer or with stray data; tests look at the resulting words only.",
 [AL,RU,RA],[("IsRuntime",RU),("commit, reserve_capacity, recreate_buffer",AL),("SlabUpdate::union",RA)])
p("C26","Asynchronous reads complete exactly once, whatever becomes of them",
 "A read from a wgpu slab that has been started completes with the words its range held in the buffer at some moment between its start and its completion if its staging buffer is mapped, and with an error if mapping fails or the device is lost; its task is woken when that happens. This holds for any number of reads under way, in any order of their completion, and whatever is committed, allocated, dropped or grown meanwhile. Dropping a read at any moment, before or after it was polled or mapped, panics nowhere and affects no other read. Every staging buffer is released once its read has ended.",
 ["histories","schedules"],"All interleavings of starting, polling and dropping several reads with commits, growth and the completion (in any order) or failure of the mappings.",
 "Reads need a GPU, and tests have none; a driver completes reads in its own order and time and almost never fails.",
 [RU,WG],[("WgpuRuntime::buffer_read",RU),("map_async callback and channel",RU),("SlabAllocator::read/read_array",WG)])
p("C27","A panic in user code leaves everything else intact",
 "When user code that the allocator calls panics (a closure given to modify, an iterator or its items given to new_array, Clone, or an item's own read and write) and the panic is caught, then: a value that was being created takes up no words for good, a read has no effect, a value that was being modified is on the GPU side either the old or the new one as a whole (its CPU side may refuse further use), and every other value, the allocator, its commits and its handles keep all of their guarantees, also for what destructors do with them while the panic unwinds.",
 ["histories"],"All histories in which one or more operations panic at any point of any user code they call.",
 "No test panics inside of a callback and carries on; the damage depends on the exact point of the panic and shows in later operations.",
 [VA,AL],[("Gpu::new, GpuArray::new, set, set_item",VA),("Hybrid::modify, write guards",VA),("new_value/new_array",AL)])
p("C30","No update is lost when values are written while others commit",
 "Whatever the interleaving of threads creating, setting and modifying values with threads committing, no update is lost: once a thread's commit returns, the buffer holds for every value at least the updates that thread had seen complete before, and after all threads have finished one more commit makes the buffer equal to every value. Updates to one value are never applied out of order.",
 ["schedules"],"All interleavings of up to three threads creating, setting, modifying and committing.",
 "The tests are single-threaded.",
 [AL,VA],[("commit lock, drain_updated_sources, insert_update_source",AL),("Gpu::set notification",VA)])
p("C31","Values created concurrently never collide and always fit",
 "Whatever the interleaving of threads creating values and arrays, with commits and drops going on, no two live allocations overlap, every commit writes within the buffer and does not panic, and ids of values are unique.",
 ["schedules"],"All interleavings of up to three threads allocating values and arrays of several sizes, dropping and committing.",
 "The tests are single-threaded.",
 [AL,RA],[("allocate/allocate_array under the recycle lock, capacity and len",AL),("next_update_k",AL)])
p("C32","Concurrent commits are safe and each returns a current, complete buffer",
 "Any number of threads may commit the same slab at the same time, including the first commit and commits that grow the buffer: none panics, each returns a buffer that contains every update completed before that call, and none writes older data over newer data.",
 ["schedules"],"All interleavings of two or three committing threads with writers and allocations, from fresh and from grown states.",
 "The tests are single-threaded.",
 [AL],[("commit",AL),("recreate_buffer",AL)])
p("C33","Dropping values concurrently with commits neither leaks nor frees early",
 "Whatever the interleaving of threads dropping, cloning, upgrading and creating values with commits, memory is never handed out while an owner exists, and once everything has been dropped and a commit has run, all of the slab's words are available again.",
 ["schedules"],"All interleavings of up to three threads dropping clones and last owners, upgrading weak handles, allocating and committing.",
 "The tests are single-threaded.",
 [VA,AL],[("Drop for Gpu/GpuArray",VA),("strong count check and recycling",AL)])
p("C34","Buffer handles catch up with concurrent resizes",
 "While other threads commit and grow the buffer, synchronizing a handle never panics and never leaves it on a buffer older than the one whose invalidation it noticed, creation times a thread observes never go backwards, and once commits have stopped a single synchronization leaves every handle on the current buffer.",
 ["schedules"],"All interleavings of threads synchronizing and fetching buffer handles with growing commits, including stale reads that relaxed atomics allow.",
 "The tests are single-threaded.",
 [AL],[("invalidation_k and recreate_buffer",AL),("update_if_invalid",AL)])
p("C35","Concurrent modifications are atomic and reach the buffer untorn",
 "Concurrent modifications of one value are all applied, one after the other, on the CPU side, where reading a whole array shows its items as they were at one moment; the buffer only ever shows whole values that were current at some time, never a mix of two, and for each value a sequence of observations of the buffer never goes backwards. After the final commit the buffer equals the CPU side.",
 ["schedules"],"All interleavings of up to three threads modifying shared multi-word values and array items, committing and reading the buffer.",
 "The tests are single-threaded.",
 [VA,AL],[("Hybrid::modify holding the CPU lock while queueing",VA),("HybridArray::modify",VA)])
p("C36","Observers never disturb concurrent work",
 "Threads that only look (asking for queued updates, fetching or reading the buffer, reading values, counting owners) or defragment, concurrently with others that create, modify, drop and commit, never cause an update to be lost, a value to be misplaced or memory to leak, and never panic.",
 ["schedules"],"All interleavings of one or two observing threads with one or two working threads.",
 "The tests are single-threaded.",
 [AL],[("get_updated_source_ids and update_queue",AL),("defrag",AL)])
p("C37","No combination of operations deadlocks or spins",
 "Any combination of concurrent operations on allocators, values, arrays, guards and buffer handles by threads that each hold at most their own write guard completes: no deadlock, no livelock and no self-deadlock.",
 ["schedules"],"All interleavings of two and three threads over all pairs of operations.",
 "The tests are single-threaded, and a deadlock shows only in rare interleavings.",
 [AL,VA],[("lock order of update_sources, recycles, update, buffer and CPU locks",AL),("HybridWriteGuard",VA)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
