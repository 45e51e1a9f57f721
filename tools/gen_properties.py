#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=None)))
SB='static-alloc/src/bump.rs'; LK='static-alloc/src/leaked.rs'; UB='static-alloc/src/unsync/bump.rs'; CH='static-alloc/src/unsync/chain.rs'
ES='exit-stack/src/lib.rs'; AL='alloc-traits/src/layout.rs'; AU='alloc-traits/src/util.rs'; AO='alloc-traits/src/local.rs'
UN='without-alloc/src/uninit.rs'; FV='without-alloc/src/fixed_vec.rs'; BX='without-alloc/src/boxed.rs'; RC='without-alloc/src/rc.rs'; AX='without-alloc/src/alloc.rs'
FI='fill/src/fill.rs'; US='unsize/src/lib.rs'; UA='unsize/src/alloc_impls.rs'; UC='unsize/src/coercion_impls.rs'

p('C01','Concurrent bump allocations never overlap',
 "When any number of threads allocate from one shared (synchronised) bump allocator, no two successful allocations of non-zero size ever return overlapping memory until the allocator is reset. The allocator's fill level never moves backwards and memory is handed out only by a call that has itself atomically advanced the fill level over exactly that memory.",
 ['schedules','inputs','histories'],'every interleaving of alloc/alloc_at/get/get_at/leak*/GlobalAlloc/LocalAlloc calls on one shared Bump<T>, every T, layout and level',
 'The one threaded test samples a handful of schedules with one layout; a lost update needs a particular interleaving between the load and the update.',
 [SB],[('single compare-exchange from the expected to the new level; the address is computed from the expected level','static-alloc/src/bump.rs Bump::try_alloc_at / Bump::bump')],
 [('consumed','fill level in bytes','static_alloc::Bump')],['returned pointers and levels'])
p('C02','Bump allocations are in bounds, aligned and large enough',
 "Every pointer that the synchronised bump allocator hands out for a request lies, with the requested number of bytes, entirely within the allocator's own storage and is a multiple of the requested alignment. This holds for every storage type, every request and every fill level, including requests whose size or padding approaches the address-space limit.",
 ['inputs','schedules'],'all T, all layouts (size and alignment), all fill levels, all storage base addresses',
 'Tests use a few small layouts; offset arithmetic that is wrong for one alignment/base-address/size combination is not sampled.',
 [SB],[('checked offset arithmetic against the storage size before the pointer is formed','static-alloc/src/bump.rs Bump::try_alloc_at')])
p('C03','A failing bump allocation is justified and has no effect',
 "A call on the synchronised bump allocator that reports failure (no memory, null, exhausted or level mismatch) consumes no memory. Exhaustion is reported only when the request, after alignment, really does not fit behind a fill level that the allocator actually had (or was asked for), and a level mismatch is reported only with an actually observed level that differs from the requested one.",
 ['inputs','schedules','histories'],'all requests, all levels, all interleavings',
 'Tests check that a full allocator fails, not that every failing call leaves the level alone or that a failure is never spurious.',
 [SB],[('exhaustion test precedes the compare-exchange; strong compare-exchange','static-alloc/src/bump.rs Bump::try_alloc_at')])
p('C04','Allocation at a level is exact',
 "A request at a given level on the synchronised bump allocator succeeds only if the fill level was exactly that level; the memory then starts at the first suitably aligned address at or after it and the fill level afterwards, which is the level that is returned, is exactly the end of that memory. No allocation consumes more than its alignment padding plus the requested size.",
 ['inputs','schedules'],'all levels, layouts, storages and interleavings',
 'Tests allocate at a handful of levels with byte-sized values, so wrong padding or an over-wide reservation stays invisible.',
 [SB],[('new level = aligned start + size, compare-exchange from the given level','static-alloc/src/bump.rs Bump::try_alloc_at')])
p('C05','Zero-sized values never consume allocator memory',
 "A typed request for a zero-sized type on either bump allocator consumes no memory and yields a non-null, suitably aligned pointer even when the allocator is full or empty; it reports the current level. With an explicit level it succeeds exactly if that is the current level and otherwise reports the current one.",
 ['inputs','histories'],'all zero-sized types including over-aligned ones, all fill levels, both allocators',
 'One test leaks a single zero-sized value with alignment one.',
 [SB,UB],[('zero-size special case in the typed entry points','static-alloc/src/bump.rs Bump::get/get_at, static-alloc/src/unsync/bump.rs MemBump::get/get_at')])
p('C06','A leaked value is moved exactly once',
 "Placing a value into a bump allocator (leak, leak at a level, boxed variants) moves it exactly once: on success it has been written to the allocated memory before a reference to it exists and its destructor has not run; on failure of the leaking variants the same value comes back inside the error, and of the boxed variants it is dropped exactly once. No path duplicates, forgets or double-drops it.",
 ['inputs','histories'],'all value types, all outcomes of the allocation, including unwinding',
 'Tests observe successful leaks of integers, never the fate of a non-trivial value on the failing paths.',
 [SB,LK],[('value written through the fresh pointer, or returned in LeakError','static-alloc/src/bump.rs Bump::leak/leak_at/leak_box/leak_box_at, Allocation::leak/boxed')])
p('C07','Allocator-trait conformance of the bump allocator',
 "Used through the global-allocator or local-allocator traits, the synchronised bump allocator returns null/none on failure and otherwise memory fit for the requested layout; reallocation returns memory fit for the new layout that starts with the old contents up to the smaller of both sizes, keeps the old block untouched, and reuses the old block only when it is large enough and suitably aligned. Deallocation never makes memory available again and a new layout that cannot be represented fails instead of allocating.",
 ['inputs','histories'],'all old and new layouts and contents, all fill levels',
 'Reallocation is only reached through Vec growth in one test, never with shrinking, changed alignment or overflowing sizes.',
 [SB],[('GlobalAlloc and LocalAlloc impls','static-alloc/src/bump.rs')])
p('C08','Allocator lifetimes bound what they hand out',
 "Safe code cannot keep a reference, box or allocation obtained from a bump allocator beyond the life of that allocator, nor across a reset, which needs exclusive access. The marker lifetime on allocations cannot be lengthened or shortened by coercion.",
 ['programs'],'every safe client program',
 'A unit test cannot show that a program is rejected.',
 [SB,LK,UB,AO],[('lifetime-parameterised return types, &mut self on reset, invariant marker','static-alloc/src/bump.rs, static-alloc/src/unsync/bump.rs, alloc-traits/src/local.rs AllocTime')])
p('C09','Only the synchronised allocator crosses threads',
 "The synchronised bump allocator may be shared between threads; the unsynchronised allocators, the chain, the exit stack, reference-counted pointers, drains and every pointer-like handle that aliases allocator memory are rejected by the compiler when shared with or sent to another thread where that would race.",
 ['programs','schedules'],'every safe client program with threads',
 'A unit test cannot show that a program is rejected; a wrongly added Send/Sync passes every test.',
 [SB,UB,CH,ES,UN,FV,RC,LK],[('auto traits from Cell/NonNull/raw-pointer markers; one unsafe impl Sync for the atomic Bump','struct definitions')])
p('C10','Unsynchronised bump allocation is disjoint, bounded and exact',
 "Every successful allocation from the unsynchronised bump allocator returns memory of the requested size and alignment inside its data area, beginning at the first aligned address at or after the previous fill level, and moves the fill level to exactly the end of that memory; so allocations never overlap until a reset. A failing call leaves the fill level unchanged, reports exhaustion only when the request does not fit at the tried level and mismatch only with the differing current level.",
 ['inputs','histories'],'all capacities, layouts, levels, array lengths (including lengths whose byte size overflows) and call sequences',
 'Tests allocate a few integers from one buffer.',
 [UB],[('checked arithmetic, compare of the index with the expected level','static-alloc/src/unsync/bump.rs MemBump::try_alloc_at/bump/bump_array')],[('index','fill level','MemBump')])
p('C11','Viewing memory as an allocator stays within that memory',
 "An unsynchronised allocator made from borrowed, heap or inline memory starts empty, has its header and its whole capacity inside the provided memory at a suitably aligned address, and rejects memory that is too small instead of touching it. Turning it back into memory yields only bytes of the memory it was made from, and heap memory is requested with exactly the layout with which it is later released.",
 ['inputs'],'all buffer addresses, alignments and lengths, all capacities, all storage types',
 'The one test uses a 128 byte buffer; off-by-header and rounding errors need other lengths and alignments.',
 [UB],[('align_offset, header bounds check, rounding down to the header alignment','static-alloc/src/unsync/bump.rs MemBump::from_mem/from_mem_unchecked/into_mem/new, Bump::deref')])
p('C12','A chain keeps every block until it is dropped, then frees each once',
 "Blocks appended to a chain of allocators stay allocated, linked and usable while the chain is borrowed; appending neither frees nor loses a block of the receiving chain, and exactly one link leads to each block. Dropping a chain visits every block once and releases it with the layout it was requested with; failed block allocations surface as errors and never as dangling blocks.",
 ['histories','inputs'],'all sequences of new/chain/drop, all block sizes, allocation failure',
 'The one test appends a single block and never observes deallocation.',
 [CH],[('take-before-box traversal, link replacement in chain()','static-alloc/src/unsync/chain.rs')])
p('C13','Scoped stack slices have exactly the requested shape',
 "Running a closure on a temporary stack slice passes it exactly the requested number of aligned, in-bounds elements, for every length and element type whose padded size is within the supported maximum, without a failure of the internal allocation, and calls it exactly once. Constructing such a helper fails instead of wrapping or panicking when the padded size is not representable, and anything above the supported maximum is refused, never truncated.",
 ['inputs'],'all lengths and element types (zero-sized and over-aligned included)',
 'One test runs a single small length; each size class boundary is a separate case.',
 [LK,UB],[('size-class ladder with one element of slack for alignment','static-alloc/src/leaked.rs Alloca::new/run/run_with')])
p('C14','A leaked box owns its value exactly once',
 "A leaked box drops its value exactly once when it is dropped and never when it was turned into a raw pointer, leaked to a reference, taken or had its type re-asserted; each of these conversions hands over the very same memory. Taking moves the value out once, writing into an uninitialised box stores the given value without dropping anything, and reading or borrowing never drops.",
 ['inputs','histories'],'all value types, conversions and their order, including unwinding destructors',
 'Tests count drops for one or two conversions only.',
 [LK],[('ManuallyDrop on consuming conversions, drop_in_place in Drop','static-alloc/src/leaked.rs LeakBox')])
p('C15','Leaked boxes cannot be forged or pinned unsoundly in safe code',
 "Safe code can pin a leaked box only when its memory is valid forever, can wrap a plain mutable reference only when the value needs no destructor, can assume initialisation only with unsafe code, and cannot use a box after a conversion consumed it. A leaked box never allows storing a shorter-lived value in a longer-lived place.",
 ['programs'],'every safe client program',
 'A unit test cannot show that a program is rejected.',
 [LK],[("'static bound on into_pin, Copy bound on from_mut, unsafe fns",'static-alloc/src/leaked.rs LeakBox')])
p('C16','Default allocator operations preserve contents and ownership',
 "The provided zeroed allocation clears the whole returned block, and nothing else, before handing it out. The provided reallocation copies exactly the smaller of both sizes from the old to the new block before the old block is released exactly once, returns the new block, and when the new allocation fails leaves the old block allocated and untouched. Both fail only when the allocator refuses the one block they request.",
 ['inputs','fault_sequences'],'every implementor of the local allocator trait, all layouts, allocation failure at any point',
 'The default methods are not exercised by any test.',
 [AU,AO],[('defaults::local::realloc / alloc_zeroed','alloc-traits/src/util.rs')])
p('C17','Non-zero layouts are never empty and conversions are faithful',
 "A value of the non-zero layout type always has a non-zero size: every safe way to make one refuses exactly the layouts of size zero. All conversions between layout types keep size and alignment unchanged.",
 ['inputs'],'all types and layouts, all conversion routes',
 'Only a few routes are exercised and only with integer types.',
 [AL],[('size check in the single constructor','alloc-traits/src/layout.rs')])
p('C18','Pinned stack values are dropped once, last-in first-out, before reuse',
 "Every value pinned on the exit stack is registered before its pinned reference exists, and dropping or popping the stack runs each registered destructor exactly once, in reverse order of registration, following the chain of all registrations. The memory is made reusable only after all destructors ran, and the stack is empty afterwards; setting a value first pops all others and then always finds room for it in memory made for one such value, however it is aligned.",
 ['histories','inputs'],'all sequences of slot/pin/set/pop_all/drop and all value types',
 'Tests push a few values and count drops in one order.',
 [ES],[('intrusive linked list through the top cell','exit-stack/src/lib.rs Slot::pin, ExitStack::pop_all, Drop')],[('top','most recently pinned value','ExitStack')])
p('C19','A panicking destructor does not cost the exit stack other values',
 "If the destructor of a value on the exit stack unwinds, every remaining value is still dropped exactly once before the unwinding leaves the stack, no value is dropped twice, and a second panic during that clean-up cannot return control to the program.",
 ['fault_sequences','histories'],'all stack contents and every position(s) at which destructors unwind',
 'No test unwinds a destructor on the exit stack.',
 [ES],[('unwind guard that owns the remaining chain, abort guard inside it','exit-stack/src/lib.rs')])
p('C20','Exit-stack pinning cannot be subverted by safe code',
 "Safe code can obtain a slot only through a pinned stack and only for values without borrowed content, cannot pop, replace or move the stack while a slot or pinned value is borrowed, and gets only pinned access to stored values.",
 ['programs'],'every safe client program',
 'A unit test cannot show that a program is rejected.',
 [ES],[("Pin receivers, 'static bounds, lifetimes",'exit-stack/src/lib.rs')])
p('C21','Splitting uninitialised memory partitions it',
 "Every split of an uninitialised memory handle yields two handles whose byte ranges are disjoint, adjacent and together exactly the original range (alignment padding stays with the head), with capacities and slice views that do not reach beyond their own range. A split that cannot be made reports failure and leaves the handle as it was; it is refused only if the requested part really does not fit.",
 ['inputs'],'all element types (zero-sized included), lengths, base addresses, split points and layouts',
 'Tests split byte-aligned arrays at a few points.',
 [UN],[('split_at_byte, split_layout, split_cast, split_slice, split_at, split_first, split_last, shrink_to_fit','without-alloc/src/uninit.rs')])
p('C22','Typed views of uninitialised memory fit their memory',
 "A handle on uninitialised memory can be cast to a type or slice exactly when the address is aligned for it and the length suffices; the cast keeps address and length, a refused cast returns the handle unchanged, and the slice view of a cast covers only whole elements inside the memory. Handles made from or turned into borrowed memory describe exactly that memory, and initialising one writes the value once to its address without dropping.",
 ['inputs'],'all source and target types, lengths and addresses, zero-sized types',
 'Tests use naturally aligned integers.',
 [UN],[('fits() check in cast/cast_slice','without-alloc/src/uninit.rs')])
p('C23','A fixed vector holds exactly its elements',
 "A fixed-capacity vector's length never exceeds its capacity and every element below the length is initialised and owned exactly once: pushing at capacity gives the value back, popping and draining move elements out, truncation and drop destroy exactly the removed ones, and splitting hands the tail's elements over. Filling takes from the iterator only as many elements as fit, and slices expose exactly the initialised elements.",
 ['inputs','histories'],'all element types (zero-sized included), capacities and call sequences',
 'Tests run short scripted sequences with integer or counting elements.',
 [FV,UN],[('length bookkeeping around reads, writes and drops','without-alloc/src/fixed_vec.rs')],[('length','number of initialised elements','FixedVec')])
p('C24','Fixed vectors survive panics and leaked drains',
 "If user code (a destructor, an iterator or a clone) unwinds in the middle of a fixed-vector operation, the vector left behind never exposes, reads or drops an element twice or one that is not initialised. A drain that is leaked or dropped early leaves the vector with only elements it still owns, and a completed drain puts back the remaining tail contiguously and in full.",
 ['fault_sequences','histories'],'every point at which user code can unwind, every drain range and every amount consumed',
 'Tests unwind one destructor at one position and never leak a drain.',
 [FV],[('length is lowered before destructors run; Drain shortens first and restores last','without-alloc/src/fixed_vec.rs truncate/drain/Drain::drop')])
p('C25','A box in provided memory owns its value exactly once',
 "A box placed into provided memory writes the value once into that memory, drops it exactly once when dropped, and never when it is leaked, taken apart or turned into raw memory; taking returns the value once together with the very memory it occupied. Coercing the box to an unsized type keeps address, memory length and ownership.",
 ['inputs','histories'],'all value types and conversion orders, including unwinding',
 'Two tests create and drop boxes of plain values.',
 [BX,UN],[('mem::forget on consuming conversions, drop_in_place in Drop','without-alloc/src/boxed.rs')])
p('C26','Reference counts equal the live handles and the value drops once',
 "Every strong or weak handle to a reference-counted value is counted exactly once by the count of its kind for as long as it lives (with all strong handles together counting as one weak handle), so the value is destroyed exactly once, precisely when the last strong handle goes, and never while another strong handle exists. A value that is unwrapped is moved out once and not destroyed, and upgrading fails exactly when no strong handle is left.",
 ['histories','inputs'],'all sequences of new/clone/drop/downgrade/upgrade/try_unwrap/into_raw',
 'Tests run a few fixed sequences.',
 [RC],[('strong/weak counters in the shared header','without-alloc/src/rc.rs')],[('strong/weak','counts','header of the shared memory')])
p('C27','Shared memory is given out only to its sole owner',
 "Exclusive access to a reference-counted value or to its memory (mutable reference, conversion into raw memory, reclaiming memory through a weak handle) is granted only when no other strong or weak handle exists, in particular not while the value is still being destroyed, and is granted whenever that is the case. The memory returned is exactly the memory that was provided, and a refused request leaves handle and counts unchanged.",
 ['histories','inputs'],'all handle populations, values whose destructor uses handles to themselves',
 'No test reclaims memory during destruction or with outstanding weak handles of both kinds.',
 [RC],[('uniqueness tests before handing out memory; counter order in Drop','without-alloc/src/rc.rs')])
p('C28','Allocation helpers request and use the right layout',
 "The helpers that place boxes, vectors, reference-counted values, copied slices and strings into any local allocator request memory of sufficient size and alignment for what they store, return nothing when the allocator fails or the size overflows, need no memory for zero-sized content and use only memory that was handed to them. Copies contain exactly all source elements; vectors have at least the requested capacity.",
 ['inputs','fault_sequences'],'every local allocator, all element types and lengths, allocation failure',
 'Tests use one allocator with small integers.',
 [AX],[('Layout computation with checked_mul / Layout::for_value','without-alloc/src/alloc.rs')])
p('C29','Filling a container never loses an item',
 "Filling a container from an iterator takes an item only when the container has a place for it, stores every item it took in order, and stops at the container's existing capacity without reallocating; items that are not stored stay in the iterator. A result container stops at the first error, which replaces it, and takes nothing when it already holds an error.",
 ['inputs'],'all iterators (infinite and non-fused ones included) and container states',
 'Doc examples fill a few ranges and do not observe the rest of the iterator on every implementation.',
 [FI],[('capacity check precedes every next()','fill/src/fill.rs')])
p('C30','Fill variants agree with the basic fill',
 "Keeping the tail returns the iterator exactly as the fill left it; counting returns the number of items actually taken; the checked variant returns an iterator exactly when the source did not signal its end during the fill, and that iterator continues with the next item.",
 ['inputs'],'all containers and iterators',
 'A few doc examples only.',
 [FI],[('default methods of the trait','fill/src/fill.rs')])
p('C31','Unsizing keeps address and ownership',
 "Unsizing a pointer-like value yields a pointer with the same address (and provenance) as the original whatever the coercion function returned as address, with the metadata of the coercion; owning pointers transfer their ownership exactly once, without dropping or changing any reference count. A coercion to anything that is not a two-word pointer is refused before any pointer is rewritten.",
 ['inputs','programs'],'all pointer kinds and coercions',
 'Tests cover a few smart pointers with one trait each.',
 [US,UA],[('unsize_with overwrites the address word; into_raw/from_raw pairs','unsize/src/lib.rs, unsize/src/alloc_impls.rs')])
p('C32','Safe code can only perform genuine coercions',
 "Without unsafe code a coercion can be constructed only towards a trait or slice that the source type really implements or unsizes to, with no extension of borrowed lifetimes; constructing one from an arbitrary function, forging one, and implementing or calling the pointer-replacement interface require unsafe code.",
 ['programs'],'every safe client program',
 'A unit test cannot show that a program is rejected.',
 [US,UC],[('unsafe constructor and trait, private fields, bounds on the provided coercions','unsize/src/lib.rs')])
p('C33','Wrappers behave like the values they wrap',
 "Equality, ordering, hashing, formatting, borrowing and indexing of boxes, vectors and reference-counted pointers give exactly the answer of the wrapped value or element slice for the same operation with operands in the same order, and touch nothing else.",
 ['inputs'],'all wrapped types and their trait implementations',
 'Tests compare a few integers; a swapped operand or a wrong operator needs particular values.',
 [BX,FV,RC,LK],[('trait impls forwarding through Deref','without-alloc/src/{boxed,fixed_vec,rc}.rs, static-alloc/src/leaked.rs')])
p('C34','Concurrent allocation makes progress',
 "While threads contend for the synchronised bump allocator some allocation completes after finitely many steps, and every single attempt ends as soon as no other thread interferes.",
 ['schedules'],'every fair schedule',
 'Schedules cannot be enumerated by tests.',
 [SB],[('retry loop around compare-exchange','static-alloc/src/bump.rs Bump::try_alloc')])
p('C35','Scoped stack slices use no more stack than advertised',
 "Running a closure on a temporary stack slice uses stack space proportional to the requested size and never that of a larger size class.",
 ['inputs','configurations'],'all lengths and optimisation levels',
 'Depends on code generation.',
 [LK],[('separate monomorphic function per size class','static-alloc/src/leaked.rs Alloca::run')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print('too many sentences',x['id'],n)
