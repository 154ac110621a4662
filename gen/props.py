P = []
def prop(id, title, stmt, over, q, why, files, mech, how="", note="", state=None, obs=None, na=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, q=q, why=why, files=["src/lightspeed/" + f for f in files], mech=[(n, "src/lightspeed/" + w) for n, w in mech], how=how, note=note, state=state, obs=obs, na=na))
I = ["inputs"]; IH = ["inputs", "histories"]; S = ["schedules", "inputs"]

prop("C01", "Base16: encode and decode are inverse, per the alphabet, and never over-read",
 "Encoding any bytes to base16 gives exactly two digits of the chosen alphabet per byte, high nibble first, and decoding that text gives the bytes back; with case-insensitive decoding either letter case is accepted, with case-sensitive decoding only the given alphabet. The stream filters HexEncoder and HexDecoder agree with this. After a flush the same converter can be used for another message. Text that is not base16 never makes a decoder read or write outside its buffers.",
 I, "all byte strings up to the length bound, all 2^n mixes of digit case, arbitrary junk text", "The unit test encodes one fixed string; it never mixes case, never uses another alphabet and never feeds junk.",
 ["utils/base16.cpp", "utils/base16.h"], [("ByteToBase16Convert / Base16ToByteConvert", "utils/base16.cpp"), ("HexEncoder / HexDecoder", "utils/base16.h")],
 "bytes and the case of every digit are symbolic; the text is compared with the definition of base16 and decoded back", "all messages up to 4 bytes, 5 arbitrary characters for junk; longer messages are outside the bound (the converters carry at most one byte of state)")
prop("C02", "Base32: encode and decode are inverse and follow RFC 4648",
 "Encoding any bytes to base32 gives the RFC 4648 text (with padding on request, without it exactly the significant characters), and decoding returns exactly the bytes, including several blocks written one after another through the same converter, and a second message after a flush. With case-insensitive decoding both letter cases are accepted.",
 I, "all byte strings up to the length bound, both padding modes, both case modes", "Tests encode single fixed strings; final partial groups without padding and case folding are never exercised.",
 ["utils/base32.cpp", "utils/base32.h"], [("ByteToBase32Convert, Base32ToByteConvert", "utils/base32.cpp")],
 "bytes symbolic, text compared digit by digit against the RFC bit layout, then decoded by the real decoder", "messages up to 11 bytes (two full groups and every partial length), reuse with messages up to 6 bytes; state between groups is one group")
prop("C03", "Base64: encode and decode are inverse and follow RFC 4648",
 "Encoding any bytes to base64 (standard and URL alphabets, with and without padding) gives the RFC 4648 text, and decoding returns exactly the bytes, padded or not, through both the current converters and the older filter classes; after a flush the same converter can be used for another message.",
 I, "all byte strings up to the length bound, all alphabets and padding modes", "The unit tests use two fixed strings with padding.",
 ["utils/base64.cpp", "utils/base64.h", "utils/base64.tcc"], [("ByteToBase64Convert, Base64ToByteConvert", "utils/base64.cpp"), ("Base64Encoder, Base64Decoder", "utils/base64.tcc")],
 "as C02", "messages up to 7 bytes (two full groups and every partial length), reuse with messages up to 4 bytes")
prop("C04", "Base85: encode and decode are inverse",
 "Encoding writes each group of 4 bytes as 5 base-85 digits, most significant first (a last group of k bytes as k+1 digits), and decoding returns exactly the original bytes; after a flush the same converter can be used for another message. Text that is not base85 never makes the decoder read or write outside its buffers.",
 I, "all byte strings up to the bound, arbitrary junk text", "The unit test encodes one string whose length is a multiple of four.",
 ["utils/base85.cpp", "utils/base85.h"], [("ByteToBase85Convert, Base85ToByteConvert", "utils/base85.cpp")],
 "encoder output is compared with the digit formula and decoder output with the Horner formula for every value; short groups are also round-tripped directly. The round trip of full groups is the composition of the two formulas (arithmetic fact: the base-85 digits of a 32-bit number are unique)", "messages up to 6 bytes, texts up to 7 characters, junk up to 6 characters, reuse with messages up to 5 bytes; direct round trip for 1-byte groups")
prop("C05", "URL coding and query strings: decoding inverts encoding for any bytes",
 "URL-encoding any bytes yields only characters legal in a query, and decoding returns exactly the bytes; escapes are accepted with hex digits in either case and '+' means space. A query string built from any field names and values is parsed back to exactly those fields in order, empty fields included, and malformed escapes are reported, never read past the end of the text.",
 I, "all byte strings, all field contents up to the bound, arbitrary malformed text", "Tests parse a single hand-written URL with well formed escapes.",
 ["utils/urlencode.cpp", "utils/urlencode.h", "utils/queryParser.cpp", "utils/queryParser.h"], [("UrlEncodeConvert, UrlDecodeConvert", "utils/urlencode.cpp"), ("QueryParser", "utils/queryParser.cpp")],
 "bytes, hex digit case and the field contents are symbolic; the decoded result is compared with the original", "strings up to 3 bytes, queries with up to 2 fields in 5 characters and 3 short fields, junk up to 4 characters")
prop("C06", "UTF-8: code points and bytes convert both ways, invalid bytes are never dropped",
 "Every Unicode code point is written as its shortest UTF-8 form and read back unchanged, by the converters, stream filters and string conversions alike. Bytes which are not UTF-8 are reported as an error or skipped by explicit request; they are never silently turned into other text, and no truncated sequence is read beyond its end.",
 I, "all code points (also the historic 31-bit range), all byte strings up to the bound", "Tests convert a few hand-written strings; boundary code points and invalid bytes are not sampled.",
 ["base/streams/utf.cpp", "base/streams/utf.h", "base/streams/utf.tcc", "base/containers/convertString.tcc"], [("UTF8ToWide, WideToUTF8", "base/streams/utf.cpp"), ("Utf8ToWideFilter, WideToUtf8Filter", "base/streams/utf.tcc")],
 "code points/bytes symbolic; encoder compared with the UTF-8 definition, decoder with a reference decoder on arbitrary bytes", "2 code points of up to 31 bits, 3 arbitrary bytes")
prop("J01", "JSON: a value written as text and parsed back is the same value",
 "Any JSON value (strings with any content, integers, nested arrays and objects) written as text and parsed again compares equal to the original, and the text is legal JSON, with any non-ASCII character escaped when ASCII output is asked for. Integer literals keep their exact value as long as they fit, otherwise the value becomes a floating point number, never a truncated one.",
 I, "all string contents up to the bound, all 64-bit integers, all trees up to the bound", "Tests round-trip a handful of documents; boundary integers, astral characters and control characters are not in them.",
 ["utils/json.h", "utils/json/jsonparser.tcc", "utils/json/jsonserializer.tcc", "utils/json/jsonimpl.h"], [("Parser", "utils/json/jsonparser.tcc"), ("Serializer", "utils/json/jsonserializer.tcc"), ("node types", "utils/json/jsonimpl.h")],
 "string characters, numbers and tree shapes are symbolic; the text is parsed by the real parser and compared with the source value", "strings up to 2 characters (code points up to U+10FFFF), integer literals up to 19 digits, trees up to 4 nodes; formatting of floating point is outside")
prop("J02", "JSON parser: any text is either parsed or rejected, without damage",
 "Whatever text is given to the parser, it either returns a value or throws a parse exception: no memory error, no leak, no endless loop. Whitespace between tokens never changes the result and every proper prefix of a document (other than a number) is rejected.",
 I, "all texts up to the bound, all whitespace placements, all truncation points", "The tests parse well formed documents only.",
 ["utils/json/jsonparser.tcc", "utils/json/jsonparser.h"], [("Parser::parse", "utils/json/jsonparser.tcc")],
 "arbitrary characters; any memory error, leak or foreign exception is a violation", "3 arbitrary characters; template document with symbolic whitespace; every truncation point of it")
prop("J03", "JSON containers: objects, arrays, comparison and paths follow the model",
 "JSON objects map each key to the last set value (adding does not replace, setting replaces, storing nil removes), arrays keep order under insert, erase and replace, and equality is by value whatever the order of operations. A path finds the member it names in any document, and a copied path stays valid after its source is gone.",
 IH, "all operation sequences up to the bound, all keys and values", "Tests build a few documents with distinct keys in one order.",
 ["utils/json.h", "utils/json/jsonimpl.h", "utils/json/json.cpp", "utils/json/json.h"], [("Object, Array", "utils/json/jsonimpl.h"), ("Path", "utils/json/json.cpp")],
 "sequences of operations with symbolic kinds, keys and values run against a small model", "3 operations over 3 keys; pairs of arbitrary keys up to 4 characters; arrays up to 3 items; paths up to 3 levels")

prop("D01", "AutoArray: any history of operations gives the contents of the ideal sequence",
 "After any sequence of adds, inserts, erases, sets, resizes, appends, copies and assignments, an AutoArray holds exactly the items the ideal sequence would hold, whatever its allocator (heap, small buffer, static) and also when an operation is given the array's own item or the array itself. Every item is constructed and destroyed exactly once, memory is never leaked or touched out of bounds, a full static array reports an error leaving its contents unchanged, and when copying an item fails, the array keeps its items, with at most those already copied added.",
 IH, "all operation sequences up to the bound, all positions, counts and values, three allocators", "Tests append and read back in a fixed order with one allocator; reallocation at the moment an own item is inserted, empty inserts and rollback are never sampled.",
 ["base/containers/autoArray.h", "base/containers/autoArray.tcc", "base/memory/smallAlloc.h", "base/memory/staticAlloc.h", "base/memory/stdAlloc.h", "base/objmanip.h"], [("AutoArray", "base/containers/autoArray.tcc"), ("ObjManip", "base/objmanip.h"), ("SmallAlloc", "base/memory/smallAlloc.h")],
 "a prefix of symbolic length is filled, then symbolic operations (kind, position, count, value) run on the real array and on a model; items are tracked objects which notice double construction, use after destruction and leaks", "prefix up to 3 items and 2 operations (3 in thorough) with each allocator, prefix up to 8 items and one operation with counts up to 4")
prop("D02", "Deque, Queue and Stack keep order and items under any history",
 "A Deque gives back exactly the items pushed at either end, in order, through growth, wrap-around and copying, also when an item of the deque itself is pushed; Queue is first-in first-out and Stack last-in first-out. Every item is constructed and destroyed exactly once, and a push or copy that fails because an item cannot be copied changes and leaks nothing.",
 IH, "all sequences of pushes, pops, copies and clears up to the bound", "Tests push and pop in one fixed pattern; wrap-around together with growth is not sampled.",
 ["base/containers/deque.h", "base/containers/deque.tcc", "base/containers/queue.h", "base/containers/stack.h"], [("Deque", "base/containers/deque.tcc")],
 "symbolic operation sequences against a model sequence with tracked items", "prefix of up to one full cluster, then 3 operations (4 in thorough) on Deque, 7 (10) on Queue/Stack")
prop("D03", "LinkedList keeps order and items under any history",
 "A LinkedList holds exactly the items inserted, in order, through adding at both ends, insertion before or after an item, removal by iterator, copying, assignment (also to itself), swapping and clearing; first and last item are always right, an iterator returned for a new item can be read, erased through and used as a position, iterators compare by their place, items are destroyed exactly once, and an insertion that fails because the item cannot be copied changes nothing.",
 IH, "all operation sequences up to the bound", "Tests never remove the last item, copy, or ask for the last one.",
 ["base/containers/linkedList.h"], [("LinkedList", "base/containers/linkedList.h")],
 "symbolic operation sequences against a model sequence with tracked items", "lists up to 4 items, 2 operations (3 in thorough)")
prop("D04", "Map and Set: ordered, balanced, and exactly the model's contents",
 "A Map holds one value per key, visited in strictly ascending key order forward and descending backward; insert, replace, lookup, seek, erase by key or iterator, union, difference, comparison and swap answer as the model does, an iterator erased through moves to the next item in its direction, and the depth of the tree always stays within the AVL bound. Set behaves likewise, no item leaks or is used after erase, and an insertion that fails because the item cannot be copied changes nothing.",
 IH, "all key sequences (symbolic 8-bit keys) up to the bound, all orders of insertion, all erased keys", "Tests insert a few fixed keys; deletions which rotate several levels, and operators, are not exercised.",
 ["base/containers/avltree.h", "base/containers/avltree.tcc", "base/containers/avltreenode.h", "base/containers/avltreenode.tcc", "base/containers/map.h", "base/containers/map.tcc", "base/containers/set.h", "base/containers/set.tcc"], [("AvlTreeBasic, AVLTree", "base/containers/avltree.tcc"), ("AvlTreeNode rotations", "base/containers/avltreenode.tcc"), ("Map", "base/containers/map.tcc"), ("Set", "base/containers/set.tcc")],
 "keys symbolic for small trees (every relative order and every duplicate), a family of insertion orders for 12-item trees with every erased key; all interface operations on every subset of four keys", "4 symbolic keys + 1 erase (5 in thorough), 12-item trees + 2 erases. Position counting (Iterator::getPosition, Iterator(root,pos)) is documented as approximate, is not used by anything, and is not claimed")
prop("D05", "MultiMap, MultiSet and MapReduce follow their models",
 "MultiMap and MultiSet keep every value inserted under a key, sorted by key and then by time of insertion, and erase exactly the one the iterator stands on. MapReduce's result is always the reduction, in key order, of exactly the items currently in the map, whatever was inserted, erased and reduced before.",
 IH, "all insertion and erasure sequences up to the bound, symbolic values", "There is no test for MultiMap/MultiSet, and the MapReduce test never erases.",
 ["base/containers/map.h", "base/containers/map.tcc", "base/containers/set.h", "base/containers/mapreduce.h", "base/containers/mapreduce.tcc", "base/containers/avltreenode.tcc"], [("MultiMap", "base/containers/map.tcc"), ("MapReduce::reduce", "base/containers/mapreduce.tcc"), ("dirty flags", "base/containers/avltreenode.tcc")],
 "symbolic sequences against a model; the reduction is string concatenation (associative, not commutative)", "4 inserts then erasing everything in any order; MapReduce: 3-7 inserts in four orders with reductions at any point, then 2 changes")
prop("D06", "Heaps, sorting and priority queues give items in order and lose none",
 "Heap sort leaves exactly the items it was given, in order, whichever the order relation is reversed or not; removing an item from the middle of a heap keeps the rest a heap. A PriorityQueue gives, after any history of pushes, pops, copies, assignments and clears, the best of the items it holds, once each; a sort filter gives what was put in, in order, and one with a limited buffer the best of what it holds. Copies are independent, and no item leaks or is used after destruction.",
 IH, "all values and relative orders of the items, all sequences of operations up to the bound", "Tests sort one fixed array; copying a queue, removal from the middle and equal items are never tried.",
 ["base/containers/sort.h", "base/containers/sort.tcc", "base/containers/priorityQueue.h", "base/iter/sortFilter.h", "base/iter/sortFilter.tcc"], [("HeapSort", "base/containers/sort.tcc"), ("PriorityQueue", "base/containers/priorityQueue.h"), ("SortFilter", "base/iter/sortFilter.tcc")],
 "items with symbolic 4-bit ranks and identities; sequences of symbolic operations against a bag which knows what is inside", "sorting of up to 5 items (6 in thorough); heap of up to 5 (7); 4 operations (5)")
prop("I01", "Converting and filtering iterators: same sequence by whatever calls",
 "Reading through a converter, a chain of two converters or a filter gives exactly the converted sequence whatever mix of hasItems, peek, getNext and block reads of any size is used, including nested converting readers, and the end is reported by hasItems and by an exception; a block read returns nothing only at the end. Writing through a converter or a filter delivers the converted items in order whatever mix of single and block writes is used, when flushed or when the converting writer is destroyed; a block written to a target that gets full is counted so that the rest can be written later. Copying from an iterator to a writer, by items, by accepted items or by blocks, moves exactly as many items as the limit, the source and the target allow, says how many, and leaves the rest in the source.",
 I + ["histories"], "all data up to the bound, all mixes of operations and block sizes", "Tests read a converter item by item only.",
 ["base/iter/iterator.h", "base/iter/iterConv.h", "base/iter/iteratorFilter.h", "base/iter/iteratorFilter.tcc", "base/iter/iterConvBytes.h"], [("ConvertReadIter, ConvertWriteIter", "base/iter/iterConv.h"), ("FilterRead, FilterWrite", "base/iter/iteratorFilter.h"), ("blockRead, blockWrite", "base/iter/iterator.h")],
 "base16/base64 converters and a filter over symbolic bytes; the reader's choices are symbolic; the reference is the encoding written out in the harness", "data up to 4 bytes (6), 3 free operations (4) then reading to the end, block of 1-3 items")
prop("A01", "Array views and expressions denote the sub-sequences they name",
 "head, tail, mid, offset, crop, trim, reverse, concatenation, repetition and views of those give exactly the items the ideal sequence operation gives, for every position and count including those past the end or overflowing; find, findLast, findOneOf (with and without position), split, comparison and case-sensitive order agree with the definition on sequences; copying into a bounded target copies what fits; array iterators give items in both directions with seeking; writing through a view changes exactly the item viewed. Nothing outside the array is read.",
 I, "all contents, lengths up to the bound, all 64-bit positions and counts", "Tests use in-range positions of one text.",
 ["base/containers/arrayt.h", "base/containers/arrayExpr.h", "base/containers/arrayref.h", "base/containers/arrayIterator.h", "base/containers/constStr.h", "base/containers/flatArray.h"], [("ArrayT", "base/containers/arrayt.h"), ("ArrMid, ArrRev, ArrSum, ArrRepeat", "base/containers/arrayExpr.h"), ("FlatArray", "base/containers/flatArray.h")],
 "arrays of symbolic bytes and symbolic 64-bit positions; every view compared item by item with the sequence it names", "arrays up to 4 items (6 in thorough); find with sequences up to 3 items. findLast(sequence) is not claimed (undocumented whether it returns the first or last index)")
prop("A02", "Strings behave as values",
 "String handles behave as values of their own though they share buffers: writing, concatenating, slicing, isolating, clearing or assigning one (also from itself) never changes another, every buffer is given back exactly once to the allocator it came from, and the C form is always terminated. Strings built through buffers, write iterators or any array source hold exactly the source; wide text survives conversion to UTF-8 and back with the advertised length; case-insensitive comparison is an order which ignores ASCII case only, for every byte including NUL.",
 IH, "all contents, all sequences of operations on three handles up to the bound", "Tests build and print a few strings.",
 ["base/containers/string.h", "base/containers/string.tcc", "base/containers/stringBase.h", "base/containers/stringparam.h", "base/containers/constStr.h", "base/memory/refCntPtr.h"], [("StringCore, StringBase", "base/containers/stringBase.h"), ("StringT", "base/containers/string.h"), ("cStr", "base/containers/stringparam.h")],
 "operations on three handles, chosen symbolically, against value copies; a counting allocator; UTF-8 and comparison against definitions", "3 operations (4) over strings up to 8 characters; conversions of up to 2 characters; comparison up to 3 + 3 characters. Conversions through an 8-bit code page (iconv, C library) are outside")
prop("A03", "A string pool keeps every stored string valid and unchanged",
 "Strings stored in a pool by copying, through an iterator or a writer - also when the source lies in the pool itself - keep their content, length and termination while the pool grows, is trimmed, and is rolled back to an earlier mark, until they are released.",
 IH, "all sequences of stores, marks, trims and releases up to the bound", "There is no test of the pool; growth that moves the buffer is never sampled.",
 ["base/containers/stringpool.h", "base/containers/stringpool.tcc"], [("StringPool", "base/containers/stringpool.tcc")],
 "symbolic sequences of operations with symbolic content; every string still held is compared after each step", "3 operations (4), strings up to 2 characters")
prop("L01", "Locks admit one owner at a time and every waiter gets in",
 "At any moment at most one thread is inside of a FastLock, MicroLock, recursive FastLockR or spin lock (the owner of a recursive lock may enter again), whichever way it got in - waiting, trying or asynchronously. Once the owner leaves, a waiting thread enters: no wake-up is lost, the lock ends up free and can be taken again, and nothing belonging to a thread that has already left is touched. A spin lock can be handed over only by its owner and taken over only from its owner.",
 S, "all interleavings of the stated threads at every atomic access and wait, up to the stated number of preemptions, all mixes of ways to lock", "A test run sees a few of the schedules; lost wake-ups and use of a destroyed waiter need particular preemptions.",
 ["mt/fastlock.h", "mt/microlock.h", "mt/spinlock.h", "mt/linux/threadSleeper.cpp", "mt/linux/threadSleeper.h", "mt/atomic.h"], [("FastLock, FastLockR", "mt/fastlock.h"), ("MicroLock", "mt/microlock.h"), ("SpinLock", "mt/spinlock.h")],
 "the real lock code and the real thread sleeper run over modelled semaphores; which thread runs next is a symbolic variable at every atomic access; an occupancy counter, deadlock detection and memory checks are the oracle", "2 threads, 2 to 4 preemptions (plus those at waits), 3 threads or two rounds with 2; sequentially consistent memory; Thread objects are replaced by a stand-in which owns a real ThreadSleeper")
prop("L02", "Level and read-write locks: one level at a time, readers share, writers alone",
 "All threads inside of a level lock hold the same level; readers of a read-write lock can be inside together, a writer is always alone. When the lock is left the next level enters, no waiter is forgotten, cancelling an asynchronous request leaves the lock usable, and afterwards the lock is free.",
 S, "all interleavings of 2 and 3 threads up to the preemption bound, all assignments of levels, roles and ways to lock", "There is no test of these locks.",
 ["mt/rwlock.h", "mt/fastlock.h", "mt/linux/threadSleeper.cpp"], [("LevelLock, RWLock", "mt/rwlock.h")],
 "as L01", "2 threads with 2 (3) preemptions, 3 threads with 1 (2); sequentially consistent memory")
prop("L03", "Semaphores, mutexes, gates, sync points neither lose nor duplicate events",
 "A semaphore never has more holders than permits and loses none, whether a request ends by success, timeout or cancellation; a mutex has one, possibly recursive, owner; a gate lets through exactly while it is open. Each notification of a synchronization point reaches exactly one registered slot, in the order of the chosen policy, registering and removing report truthfully, and a slot can be reused; a notifier delivers its reason to the thread that waits.",
 S, "all interleavings up to the preemption bound, all mixes of waiting, trying, timing out and cancelling; all sequences of slot operations", "Tests use a single schedule and never let a wait time out while it is being satisfied.",
 ["mt/syncPt.cpp", "mt/syncPt.h", "mt/semaphore.h", "mt/mutex.cpp", "mt/mutex.h", "mt/gate.h", "mt/notifier.cpp", "mt/notifier.h"], [("SyncPt", "mt/syncPt.cpp"), ("Semaphore", "mt/semaphore.h"), ("Mutex", "mt/mutex.cpp"), ("Gate", "mt/gate.h"), ("Notifier", "mt/notifier.cpp")],
 "as L01; timeouts are a nondeterministic outcome of a wait; the sequential order of notifications is compared with a model for all operation sequences", "2 threads with 1 to 2 (3) preemptions; slot sequences of 5 (6) operations on 3 slots; sequentially consistent memory")
prop("L04", "A thread runs its function once and is gone when join() returns",
 "start() runs the given function exactly once in a new thread, refuses a thread that already runs, and can be called again after join(), also after a failed start; of two simultaneous start() calls exactly one succeeds. When join(), stop() or the destructor return, the function has ended and been destroyed and the Thread object is not used any more. An exception that leaves the function is reported to the application exactly once. Every installed hook learns of each thread's begin and end exactly once. Each thread has its own copy of every thread variable, also of one created after the thread, and the copies are destroyed when the thread ends.",
 S, "all interleavings up to the preemption bound of thread functions that return, throw, sleep or start themselves again, with every way of ending and restarting; all sequences of creating and releasing thread variables", "Tests see one schedule, in which the started thread has long ended before it is joined.",
 ["mt/thread.h", "mt/linux/thread.cpp", "mt/gate.h", "mt/threadHook.cpp", "base/sync/threadVar.h", "base/sync/tlsalloc.cpp"], [("Thread", "mt/linux/thread.cpp"), ("AbstractThreadHook", "mt/threadHook.cpp"), ("ThreadVar", "base/sync/threadVar.h"), ("TLSAllocator", "base/sync/tlsalloc.cpp"), ("Gate", "mt/gate.h")],
 "the real Thread class over modelled pthread_create and semaphores whose wake-ups are scheduling points; thread functions and hooks count their calls and lives; memory of a thread stack or object that has gone is inaccessible", "1 or 2 threads next to the master, 0 to 2 (1 to 3) preemptions, 2 runs per Thread object, 6 thread variables; the application object is a stub; sequentially consistent memory")
prop("R01", "A resource pool never exceeds its limit, shares a resource or loses a place",
 "Every resource of a pool has at most one holder, who may share its pointer; it returns to the pool, or to a waiting thread, when the last copy of the pointer goes. There are never more resources than the limit allows, a raised limit serves waiting threads at once, a lowered one takes effect as resources are released; an expired resource is destroyed and replaced, and a failed creation returns its place. A request without a time limit ends as long as others release, one with a limit ends by TimeoutException at worst, and every resource is destroyed exactly once, never while it is held.",
 S, "all interleavings up to the preemption bound of threads that acquire, share and release, of failing creation, expiring resources, timeouts and a changing limit", "No test uses the pool at all.",
 ["base/containers/resourcePool.cpp", "base/containers/resourcePool.h", "base/memory/sharedResource.h", "mt/syncPt.cpp"], [("AbstractResourcePool", "base/containers/resourcePool.cpp"), ("AbstractResourcePtr", "base/containers/resourcePool.h"), ("SyncPt", "mt/syncPt.cpp")],
 "as L03; resources count their holders and lives, and at the end the pool has to give out exactly as many resources as the limit says", "1 thread and a changing limit with 2 (5) preemptions, 2 threads and a changing limit with 1 (2); limits 1 and 2; sequentially consistent memory")
prop("M01", "A referenced object lives exactly as long as somebody refers to it",
 "An object held by reference-counting or sharing pointers is destroyed exactly once, exactly when the last reference goes away, whatever copying, assigning, swapping and manual referencing happens and from however many threads; an owning pointer releases its object exactly if it owns it. A weak reference gives either null or an object that stays alive until it is unlocked, and null for ever after the target has gone. A singleton is constructed once and nobody sees it before it is complete.",
 ["inputs", "histories", "schedules"], "all sequences of operations up to the bound, all interleavings of 2 to 3 threads up to the preemption bound", "Tests copy a few pointers in one thread.",
 ["base/memory/refCntPtr.h", "base/memory/sharedPtr.h", "base/memory/sharedResource.h", "base/memory/ownedPointer.h", "base/memory/weakref.h", "base/memory/singleton.h", "base/memory/singleton.cpp", "base/memory/allocPointer.h"], [("RefCntObj, RefCntPtr", "base/memory/refCntPtr.h"), ("SharedPtr", "base/memory/sharedPtr.h"), ("WeakRef", "base/memory/weakref.h"), ("Singleton", "base/memory/singleton.h")],
 "a model of who refers to what is kept next to the real pointers; threads as in L01", "3 (4) operations on 3 reference-counting pointers, 2 (3) on sharing ones; 3 threads with 1 (2) preemptions, weak references with 3; sequentially consistent memory")
prop("M02", "Allocators hand out blocks that do not overlap and stay intact until returned",
 "Blocks from the cluster, pool and in-buffer allocators lie inside of the memory they manage, never overlap, are suitably aligned and keep their content until they are given back, through the allocator or through the owner it reported, in any order; sizes that do not fit are refused. Objects created through an allocator return to it with their size, also when their constructor throws; leaks are reported exactly when a block was not returned. Each item pushed to a lock-free list is popped exactly once.",
 ["inputs", "histories", "schedules"], "all sequences of allocations and releases up to the bound, all 64-bit sizes for the in-buffer allocator, all interleavings of 2 threads up to the preemption bound for the list", "There are no tests of the allocators.",
 ["base/memory/clusterAlloc.cpp", "base/memory/clusterAlloc.h", "base/memory/poolalloc.h", "base/memory/runtimeAlloc.h", "base/memory/dynobject.cpp", "base/memory/smallAlloc.h", "mt/slist.h"], [("AllocCluster, AllocMulticluster, ClusterAlloc", "base/memory/clusterAlloc.cpp"), ("PoolAlloc", "base/memory/poolalloc.h"), ("AllocInBuffer", "base/memory/runtimeAlloc.h"), ("DynObject", "base/memory/dynobject.cpp"), ("SList", "mt/slist.h")],
 "every block is filled with its own pattern and compared after each step; list items are counted", "4 (5) operations after 3 or 9 blocks; block sizes 0, 5, 24, 36; list with 2 threads of up to 2 pushes and 3 pops, 2 (3) preemptions")
prop("N01", "Numbers written as text read back as the same number; other text is refused",
 "An integer formatted by TextFormat or ToString in any base from 2 to 36 gives exactly its digits (a minus sign for a negative one, no leading zeros, also for the lowest and highest value of the type), and reading that text in the same base gives the number back. Reading any text as an integer gives the number it denotes or is refused; a number reader which stops at the first character that is not a digit leaves the rest of the input untouched.",
 ["inputs"], "all values near the powers of two and ten up to both ends of the 32 and 64 bit range, all texts up to the bound, chosen bases", "Tests print a handful of numbers.",
 ["base/text/textFormat.cpp", "base/text/textFormat.tcc", "base/text/toString.h", "base/text/textParser.cpp", "base/text/textParser.tcc"], [("numberToString", "base/text/textFormat.cpp"), ("ToString", "base/text/toString.h"), ("stringToUnsignedNumber, stringToSignedNumber", "base/text/textParser.cpp"), ("parseUnsignedNumber", "base/text/textParser.tcc")],
 "the digits are evaluated independently and must be the only representation; the text is read back by every reader the library has", "values within 16 of nine limits, 8 bases; texts up to 3 (4) characters")
prop("N02", "Formatted text is the pattern with every field replaced by its argument",
 "The output of TextFormat, TextFormatBuff and TextOut is the pattern with every %n replaced by the n-th argument whatever its type, an argument that was not given by nothing, %% by %, the new line by the chosen sequence, and a padded field filled to its width on the side, with the character and the sign its format asks for. Arguments belong to one output only: the formatter can be used again.",
 ["inputs", "histories"], "all patterns of up to two elements over all arguments of up to two characters, every kind of argument, narrow and wide characters", "Tests use fixed patterns.",
 ["base/text/textFormat.h", "base/text/textFormat.tcc", "base/text/textFormat.cpp", "base/text/textOut.h", "base/text/textOut.tcc"], [("TextFormat::output", "base/text/textFormat.tcc"), ("parseFormatInfo", "base/text/textFormat.tcc"), ("TextOut", "base/text/textOut.h")],
 "the output is compared with one computed by a plain model from the pattern elements", "2 (3) pattern elements, 2 arguments, width 1 or 4")
prop("N03", "A text pattern matches exactly the texts it describes; input is never lost",
 "TextParser accepts a text exactly if the pattern describes it (literals, optional and required white space, new line, open end, fields with searching, character lists and their negation, length ranges, numbers, identifiers), and each field is the piece of the text it stands for. TextIn on a stream gives the same answers, removes exactly the matched characters on success and nothing otherwise; reading by lines gives the text between new line sequences, with incomplete sequences and the unfinished last line kept.",
 ["inputs", "histories"], "all texts up to the bound against a set of patterns that covers the documented pattern elements, and pairs of patterns on one stream", "Tests parse a few well formed texts.",
 ["base/text/textParser.h", "base/text/textParser.tcc", "base/text/textIn.h", "base/text/textInBuffer.h", "base/text/textInBuffer.tcc", "base/text/textLineReader.h"], [("TextParser::parse", "base/text/textParser.tcc"), ("TextIn", "base/text/textIn.h"), ("TextInBuffer", "base/text/textInBuffer.h"), ("TextLineReader", "base/text/textLineReader.h")],
 "a hand written matcher for each pattern decides what must happen", "texts up to 5 (6) characters, lines up to 7 (8), 19 patterns, 30 pairs")
prop("T01", "Time stamps are points of time: exact arithmetic, order, calendar and texts",
 "Sum and difference of time stamps and intervals are exact to the millisecond, the time in a day is always from 0 to below 24 hours, and relational operators order time stamps as time runs. Conversion to unix time and back is the identity before and after 1970; Windows file time, intervals of any unit and totals in any unit agree. Year, month, day and time give the right point in time; database, ISO 8601, JSON and RFC 1123 texts show it and the first three read back as the same second. ISO 8601 texts in basic and extended form, with a fraction and a zone, give the time they denote; text with a non-digit where a digit belongs is refused.",
 ["inputs"], "all days up to 1400 years around 1970 and all times in a day for the arithmetic; 32 seconds around each of a dozen points for conversions; every value of each field with the others at their limits for the calendar and the texts", "Nothing tests time stamps.",
 ["base/timestamp.h", "base/timestamp.cpp", "base/linux/timestamp.cpp", "base/compare.h"], [("TimeStamp", "base/timestamp.h"), ("parse8601date, parse8601time", "base/timestamp.cpp"), ("fromYMDhms, formatTime", "base/linux/timestamp.cpp")],
 "symbolic days, milliseconds and fields; an independent day count and independent text are the oracle", "7 years, 4 months, 8 date forms, 6 time forms, 6 zones. timegm, gmtime_r and strftime of the C library are modelled. TimeStamp(double), week dates and the classes in datetime.h (Date, Time, DateTime, Timezone) are not claimed")
prop("C07", "Compressed numbers are exact, shortest, self-delimiting and keep order",
 "Compressing any unsigned or signed 64-bit number gives 1 to 9 bytes, writes no more, decompresses to the same number, and the first byte alone tells the length. Every byte sequence shorter than 9 bytes is the compressed form of exactly the number it decompresses to; a lower number never takes more bytes and its bytes compare lower.",
 ["inputs"], "all 64-bit numbers, all pairs of them, all 9-byte buffers", "There are no tests of it.",
 ["base/streams/compressNumb.cpp", "base/streams/compressNumb.h"], [("CompressNumb::compress, decompress", "base/streams/compressNumb.cpp"), ("compressSigned, decompressSigned, numberLength", "base/streams/compressNumb.h")],
 "fully symbolic numbers and buffers", "none within 64 bits; the order of two 9-byte forms is not claimed")
prop("C08", "CRC-32 and MD5 give the standard checksum however the data is split",
 "CRC-32 and MD5 of any data are the values of the standards (reflected polynomial EDB88320; RFC 1321), whether the data came byte by byte, in one block or in blocks of any sizes; the digest in hexadecimal shows the same bytes; a reset starts anew; the length of the message is counted in 64 bits.",
 ["inputs"], "all values of one byte at chosen positions of messages of lengths around the block boundaries, all splits in two from a chosen set, all message lengths in bits", "There are no tests of it; splits across a block boundary and lengths over 2^32 bits are never sampled.",
 ["utils/crc32.cpp", "utils/crc32.h", "utils/impl/md5.cpp", "utils/md5iter.h"], [("Crc32", "utils/crc32.h"), ("md5_append, md5_finish", "utils/impl/md5.cpp"), ("HashMD5", "utils/md5iter.h")],
 "bit-by-bit CRC and MD5 written as loops are the oracle", "CRC messages up to 4 bytes, MD5 messages of 11 lengths up to 128 bytes, 32 values of the symbolic byte for MD5. SHA1 works on std::istream, which cannot be encoded, and is not claimed")
prop("K01", "A configuration file gives every field its value, in its section",
 "Reading a configuration gives each field exactly its value without the surrounding white space, with escapes and broken lines of a quoted value resolved, in the section it stands in, whatever comments, blank lines, indents and line ends surround it and also when the input ends right after it. A field is found by section, name and index exactly if it is there, letter case ignored, repeated fields in the order of the file; prefixes and nested sections select what they name, also as copies and after assignment; enumeration gives every field of the section, or of it with the prefix, once. Numbers and truth values are read as written. A malformed line is refused, or only skipped if errors are ignored; a missing required field is reported.",
 ["inputs"], "all values up to the bound, all files of three fields over four sections and names, all questions", "There are no tests of it.",
 ["utils/configParser.h", "utils/configParser.cpp", "utils/configParser.tcc"], [("ConfigParser", "utils/configParser.tcc"), ("IniConfigT::getValue, Section, Iterator", "utils/configParser.cpp")],
 "files built from symbolic choices and characters; the list of what was written is the oracle", "values up to 3 (4) characters, files of 3 (4) fields. Files included with .include and reading from a disk file are not claimed")
prop("Z01", "LZW and LZWp decompress exactly what was compressed, message after message",
 "Whatever is written to LZWCompress or LZWpCompress and flushed comes out of the matching decompressor unchanged and completely, including input in which the dictionary fills up and is cleared (LZW) or reduced to the used items (LZWp), in which codes get longer, and messages written after a flush. Input that no compressor made is decoded or refused with an exception, and nothing outside of the dictionary is read.",
 ["inputs", "histories"], "all tails over two (three) symbols after prefixes which bring the dictionary to every point next to a clear code, a longer code or a rebuild, followed by a second message; all streams of up to 6 (8) bytes for the decompressors", "Tests compress one text; the points where the code length changes are hit by chance.",
 ["utils/lzw.h", "utils/lzw.tcc", "utils/lzw.cpp"], [("LZWCompressBase, LZWDecompressBase", "utils/lzw.tcc"), ("LZWpCompress::optimizeDictionary, LZWpDecompress::optimizeDictionary, Dictionary", "utils/lzw.cpp")],
 "each compressed byte goes straight to the decompressor; its output is compared with the input", "maximal code length 9 and 10 bits (15 for the longer code point), tails of 5 (7) bytes. The tree of std::map is modelled")
prop("P01", "A future gives its one result to every observer, waiter and chained future",
 "The first result given to a future stays its only result; when the last promise is destroyed without one, the result is CanceledException. Every observer is told exactly once, in the order of addition, with the result or with the exception it was cancelled with, also if it is added from another observer or after the result; a removed observer is never told, and removal tells whether it was there. A waiting thread gets the value or the exception, or TimeoutException if there is none in time. A chained future has the result of its function, the exception the function threw, or the exception of its source if the function is not for it. All of it holds when threads resolve, wait, observe and cancel at once, and nothing is touched after it has gone.",
 ["inputs", "histories", "schedules"], "all histories of 4 operations on a future with two observers and two promises, all removals among five observers, all chains of two combinators with every kind of function and outcome before, between and after, all schedules of a resolving and a waiting thread within the preemption bound", "Tests show one history each and never meet a race between wait and resolve.",
 ["base/actions/promise.h", "base/actions/promise.tcc", "base/actions/promise.cpp"], [("Future, Promise", "base/actions/promise.h"), ("Future::wait, then, onException, Value::resolveInternal", "base/actions/promise.tcc")],
 "a plain list of observers and a model of each combinator are the oracle; threads are explored with symbolic schedules", "2 (3) threads, 2 (3) preemptions. operator||, futureCatch and Future<void>::transform cannot be compiled; operator&& is not covered; functions given to the void reject handlers must not throw")

prop("Q01", "A message queue runs or rejects every message exactly once, in order",
 "Each message posted to a MsgQueue is either run once or rejected once, and then done once; it is not touched afterwards. Messages of one thread run in the order of posting, a priority message before everything that waits. A cancelled message is not run after the cancellation, a flush rejects all that waits, as does destroying the queue, and whoever waits for a flush, a cancellation or for the queue goes on only after the messages concerned are done. A scheduler runs each event once, never before its time and in order of time. MsgThread and SchedulerThread do this in their own thread, from the first message to their destruction.",
 ["inputs", "histories", "schedules"], "all sequences of queue operations up to the bound; all interleavings of one worker with several threads which post, wait, flush and cancel, up to the preemption bound", "Tests post to an idle queue from one thread.",
 ["base/actions/msgQueue.h", "base/actions/msgQueue.cpp", "base/actions/schedulerOld.h", "base/actions/schedulerOld.cpp", "mt/msgthread.h", "mt/msgthread.cpp"], [("MsgQueue", "base/actions/msgQueue.cpp"), ("OldScheduler", "base/actions/schedulerOld.cpp"), ("MsgThread, SchedulerThread", "mt/msgthread.cpp")],
 "every message counts what happens to it and is destroyed when done; a model queue predicts the fate and order of all messages in sequential histories; threads as in L01 and L04", "sequences of 4 (5) operations; 2 threads posting one message each next to the worker with 1 (2) preemptions, 3 threads or 2 messages without preemption (1); events up to 3 (5) units ahead")
prop("Q02", "An executor carries out every accepted action once, none after join()",
 "Every action given to a running QueueExecutor or ParallelExecutor is carried out exactly once, actions served by one thread in the order of submission; an action is refused only by an exception or because the executor was stopped, and an action refused is never carried out. After join(), a successful stopAll() or the destructor no action runs, none is left inside, and the executor looks idle; it looks busy while it carries out an action. An exception of an action leaves serve() or is reported to the application, and the other actions still run. join() and the destructor return when the actions end, whatever the number of threads which serve, and the executor can be used again after reset() or join().",
 ["inputs", "histories", "schedules"], "all combinations of actions (plain, submitting another, throwing, stopping), limits and ways to end; all interleavings of submitting and serving threads up to the preemption bound; failures to make a thread", "Tests run actions with one schedule.",
 ["base/actions/queueExecutor.h", "base/actions/queueExecutor.cpp", "base/actions/parallelExecutor.h", "base/actions/parallelExecutor.cpp", "base/actions/executor.h"], [("QueueExecutor", "base/actions/queueExecutor.cpp"), ("ParallelExecutor", "base/actions/parallelExecutor.cpp")],
 "every action counts its copies, runs and whether it runs after the end; threads of QueueExecutor as in L01, threads of ParallelExecutor are the library's own over modelled pthread calls as in L04", "1 action in 2 threads or 2 actions in 1 thread with 1 (2) preemptions; 2 (2) and 3 (4) actions in 2 threads without preemption (2 actions: 1); 3 threads without preemption; ParallelExecutor: 2 actions with 1 (2) preemptions, 3 actions without (1)")
prop("Q03", "A dispatcher carries out or rejects each action once, in order and in time",
 "Every action, function call, promise or future given to a Dispatcher is carried out once in the thread which is in run(), in the order of dispatching by one thread, or, when the dispatcher is quit or destroyed first, rejected once: its promise gets the result or a CanceledException. Each action is destroyed exactly once. quit() ends run(), join() and the destructor return after it, and nothing is carried out later. A Scheduler resolves each scheduled promise once and not before its time, those scheduled before it runs in the order of their times, and refuses infinite times.",
 ["inputs", "histories", "schedules"], "all combinations of kinds of actions, of dispatching before and during run() and of ways to end; all interleavings of dispatching threads and the dispatcher up to the preemption bound", "Tests do not use it.",
 ["mt/dispatcher.h", "mt/dispatcher.cpp", "mt/scheduler.h", "mt/scheduler.cpp", "base/actions/idispatcher.h", "base/actions/idispatcher.cpp", "base/actions/idispatcher.tcc"], [("Dispatcher", "mt/dispatcher.cpp"), ("Scheduler", "mt/scheduler.cpp"), ("IDispatcher", "base/actions/idispatcher.tcc")],
 "every action and every observer of a promise counts what happens to it; the dispatcher runs in a thread of the library over modelled pthread calls as in L04, with modelled time", "2 actions with 1 (2) preemptions, 3 actions without preemption (1); 2 producers; 2 scheduled promises with 3 delays, 3 without preemption (1)")
prop("F01", "Opened files and pipes transfer exactly what the system transferred",
 "For every sequence of operations on a file opened through the file services (sequential and random access, read, write, both; append and truncate) each byte reported as transferred is the byte of the file at that position, positions advance by what was transferred, reading and writing at a position do not move it, size() and setSize() agree with the contents, peek() does not consume, canRead()/canWrite() tell the end of file, the access mode and the closed output. Interrupted calls are repeated, short transfers reported as such, every failure of the system is thrown as FileIOError with its number and changes nothing; flush() puts the data on the disk or throws. Bytes peeked from a pipe are read later once and in order. Sizes and positions up to 2^62 are passed without truncation. Mapped files show the contents of the file, are unmapped once after the last use and written by sync(); each descriptor is closed exactly once.",
 ["inputs", "fault_sequences", "histories"], "all sequences of operations up to the bound, with a failure, an interruption and short transfers at every system call and all byte values; every 62-bit size and position", "Tests open existing files and the system calls do not fail or transfer less.",
 ["base/linux/fileio.cpp", "base/linux/fileio.h", "base/streams/fileio_ifc.h"], [("FileDescriptor, FileDescriptorSeq, PipeDescriptor", "base/linux/fileio.cpp")],
 "the real file services run over system calls replaced by a file system in memory whose calls fail, are interrupted or transfer less at the solver's choice; a plain array with a position is the oracle after every operation", "sequences of 3 (4) operations on files, 4 (5) on pipes, files up to 24 bytes, one failure and one interruption per sequence; large sizes: one operation, copying up to 6 GB")
prop("F02", "Commit on close, copy, move and removal of folders never lose other data",
 "A file opened with commitOnClose replaces its target in one step when it is closed, after its data are on the disk, and not at all when writing, flushing or closing fails, when an exception unwinds the stack, or when the program is killed at any point. Copying and moving (also between devices) give an identical target or throw; the source is never changed by copying and never removed unless the target is complete, also when source and target are the same file; an existing target is left unless overwriting was asked. Removing a folder recursively removes everything in it and nothing else, links are removed and not followed. A folder lists each entry once with its name, path, type, link and hidden flags and size. createFolder with parents creates all missing ones and accepts an existing folder. Open flags (create, newFile, truncate, deleteOnClose), links, temporary files, findFile, getFileInfo, canOpenFile do what they state. The handler with the longest registered prefix gets every operation on a path, and nothing else is touched.",
 ["inputs", "fault_sequences", "crash_points"], "all combinations of existing files, flags and folder contents, with a failure at every system call, a kill before every change of the file system, interruptions and short transfers", "Tests do not make system calls fail or stop in the middle.",
 ["base/linux/fileio.cpp", "base/streams/abstractFileIOService.cpp", "base/streams/abstractFileIOService.h", "base/streams/fileio_ifc.h", "base/streams/openFlags.h"], [("LinuxFileServices, FileDescriptorCommitOnClose, DirState, FileInfo", "base/linux/fileio.cpp"), ("handlers", "base/streams/abstractFileIOService.cpp")],
 "the real file services run over a file system in memory with symbolic failures and a symbolic point of kill; afterwards the names, contents and flushed contents of its files are compared with what the statement allows", "files up to 7 bytes written in at most 2 parts, folders with up to 6 entries in 2 levels, one failure, or one kill, or one interruption and 2 short transfers per run; registrations of 4 (6) handlers over 4 prefixes")
prop("V01", "Optional and Variant hold exactly the value that was stored",
 "An Optional is empty or holds one value, a Variant is null or holds one value of one type; copying, assigning (from itself, its own value or a value under construction), clearing and isolating give exactly the expected value, and each stored value is destroyed exactly once, also when a copy throws. Asking an empty Optional for its value, or a Variant for a value of another type, is refused by an exception; a Variant compares, converts to a pointer of its type or a base class, and throws its value according to the real type.",
 IH, "all sequences of operations up to the bound over all stored types, all 8-bit values", "No test uses Optional or Variant.",
 ["base/containers/optional.h", "base/containers/variant.h", "base/containers/variant.cpp", "base/constructor.h"], [("Optional", "base/containers/optional.h"), ("Variant", "base/containers/variant.h"), ("Variant::isolate", "base/containers/variant.cpp")],
 "the contents are compared with a model after each operation; elements notice use outside of their life, and each construction has to be paired with one destruction", "4 (5) operations on 2 Optionals, 3 (4) on 2 Variants; 4 types")
prop("X01", "Command lines split into switches and texts; file paths compose and decompose",
 "The command line iterator yields each short switch, long switch and text of the arguments once and in order, gives the rest of an argument as its text on request, and reports the end; a number is its sign and leading digits, and an argument without any is refused. A file path is its folder, separator and file name, and the name its title and extension; composing a path with names, parent and nil steps gives the folder of the base followed by the steps, where each parent removes one folder, never beyond the root, and an absolute part replaces everything before it.",
 I, "all arguments up to the length bound over dashes and other characters, all mixes of the reading operations; all base paths up to 2 folders with all names over dots and letters, all chains of the listed shapes", "No test uses them.",
 ["base/framework/cmdLineIterator.cpp", "base/framework/cmdLineIterator.h", "utils/FilePath.h", "base/text/textParser.tcc"], [("CmdLineIterator", "base/framework/cmdLineIterator.cpp"), ("FilePathT, FilePathChain", "utils/FilePath.h")],
 "arguments lie in exactly sized heap blocks; results are compared with a direct specification", "2 (3) arguments of up to 3 characters, numbers of up to 4 (6) characters; paths of 2 folders and names of up to 3 characters, 11 shapes of chains of up to 3 steps")
prop("S01", "Buffered and in-memory streams deliver every byte once, in order, intact",
 "Through an IOBuffer of any size over any device, bytes are read in the order of the device, after those put back, and bytes accepted by write arrive at the device in the order of writing, never mixed with what was read; nothing is lost or repeated, whatever parts the device takes or gives and even when reading from it fails. Peeking and searching do not consume; at least one byte can be put back after reading; discarding removes exactly the bytes stated. Before anything is read from the device all written data and the connected buffer are flushed; flush(), closing and destruction leave nothing behind. SeqFileInput and SeqFileOutput pass bytes the same way, tell the end, and report when not all could be transferred. MemFile, MemFileStr and the random access reader and writer behave as an array of bytes with a position.",
 ["inputs", "histories"], "all sequences of operations up to the bound with all sizes up to 5, all ways in which the device splits transfers and every byte value", "Tests read a file from the beginning to the end.",
 ["base/streams/fileiobuff.h", "base/streams/fileiobuff.tcc", "base/streams/fileiobuff_ifc.h", "base/streams/fileio.h", "base/streams/fileio_ifc.h", "base/streams/memfile.h", "base/streams/memfile.cpp", "base/streams/memfile.tcc"], [("IOBuffer", "base/streams/fileiobuff.tcc"), ("SeqFileInput, SeqFileOutput", "base/streams/fileio.h"), ("MemFile", "base/streams/memfile.tcc")],
 "a device which gives and takes symbolic bytes in chosen parts stands behind the real buffer; a queue of what is to be read and a list of what was accepted are the oracle after every operation", "buffers of 4 and 5 bytes (search: 6), sequences of 3 (4) operations, failing device 4 (5), files in memory 3 (4)")
