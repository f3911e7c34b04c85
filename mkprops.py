#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the file stays well formed)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
K="src/kvtree.c"; H="src/kvtree_helpers.c"; IO="src/kvtree_io.c"; U="src/kvtree_util.c"; M="src/kvtree_mpi.c"; MI="src/kvtree_mpi_io.c"; Q="src/queue.h"
tree=[("kvtree / kvtree_elem","an intrusive doubly linked list of (key, subtree) elements; its abstract value is the set of key paths it contains","src/kvtree.h")]
p("C01","A tree is a map from unique keys to subtrees",
 "Setting a key makes exactly that key map to the given subtree (replacing and releasing any earlier one), unsetting or extracting a key removes exactly that key, and a lookup returns the subtree last stored under the key, or nothing if the key is absent. Every other key and everything below it is left untouched, a key never occurs twice at one level, and walking first/next visits every element exactly once, as many as the reported size.",
 ["inputs","histories"],"every tree (any number of keys, any depth), every key string, every sequence of set/get/unset/extract/clear/size/iterate calls",
 "The tests set at most two keys per level and look at the touched key; list relinking in the middle/at the end of a longer list, and the untouched keys, are never examined.",
 [K,Q],[("kvtree_elem_get / kvtree_elem_extract / kvtree_set / kvtree_unset / kvtree_extract / kvtree_unset_all / kvtree_size",K),("LIST_REMOVE / LIST_INSERT_HEAD",Q)],
 ["return values and contents seen through lookup and iteration"],tree)
p("C02","Every node is freed exactly once: no leak, double free or dangling use",
 "Deleting a tree releases every element, key string and subtree it contains exactly once and clears the caller's pointer; unsetting or overwriting a key releases exactly what hung below it. No public operation on a tree reads or writes memory it does not own, uses released memory, or loses memory it allocated.",
 ["inputs","histories"],"every tree shape and every operation of the tree API",
 "No test runs under a memory checker, and the trees deleted in tests have at most a handful of nodes.",
 [K,H],[("kvtree_delete / kvtree_elem_delete / kvtree_free",K+", "+H),("kvtree_set overwriting",K)],["heap state after the call"],tree)
p("C03","Merge is the recursive union and leaves its source unchanged",
 "After merging a source tree into a destination, the destination contains exactly the key paths that either tree had before, and the source is unchanged and shares no memory with the destination. Merging into no tree fails, and merging nothing changes nothing.",
 ["inputs"],"all pairs of separate trees of any size and depth, with any overlap of keys",
 "Merge is only exercised indirectly on tiny disjoint trees.",
 [K],[("kvtree_merge",K)],["contents of both trees after the call"],tree)
p("C04","Key/value pair functions create, find and prune two-level paths",
 "Setting a key/value pair creates only what is missing and returns the subtree stored under that pair; getting a pair returns that same subtree or nothing; unsetting a pair removes exactly the value and, if that leaves the key without values, the key too. An integer value behaves exactly as its decimal text, for every integer.",
 ["inputs","histories"],"every tree, key, value string and every int value",
 "Tests use one or two pairs and the integer 17; pruning with several values and preserved siblings is not covered.",
 [K],[("kvtree_set_kv / kvtree_get_kv / kvtree_unset_kv and their _int forms",K)],["return values, contents"],tree)
p("C05","Typed setters and getters round-trip every value and keep one value per key",
 "After a typed setter (int, long, 64-bit, byte count, CRC, string, pointer) the key holds exactly one value, whatever it held before, and the matching getter succeeds and returns the very value that was set; all other keys are unchanged. For a missing key or a key without value a getter reports failure and does not touch its output.",
 ["inputs","histories"],"every value of each type, every previous content of the key, every other content of the tree",
 "Each setter is tested with the single value 17 on an empty tree.",
 [U,K],[("kvtree_util_set_* / kvtree_util_get_*",U),("kvtree_setf, kvtree_get_val, kvtree_elem_get_first_val",K)],["return value and output parameter of the getter"],tree)
p("C06","Format-string access follows exactly the named key path",
 "Setting with a format and its arguments creates the missing trees along the path spelled by the arguments and stores the given subtree under the last key, leaving all other paths unchanged; getting with a format returns the tree at that path, or nothing as soon as one key is missing. Each argument is turned into a key by its own conversion, and too long a key or an unsupported conversion never silently yields a wrong path.",
 ["inputs"],"every tree, every number of conversions and every argument value of the supported conversions",
 "Tests never call these functions directly with more than two keys.",
 [K],[("kvtree_setf / kvtree_getf",K)],["returned tree, contents"],tree)
p("C07","Sorting orders the elements and loses none",
 "After a sort by string or by integer, ascending or descending, the tree holds exactly the same elements with the same subtrees, and iteration yields the keys in the requested order; listing integer keys returns all of them, once each, in ascending order. This holds for every integer key, including the extremes of the integer range.",
 ["inputs"],"every tree and every combination of keys, including INT_MIN/INT_MAX",
 "Sorting is tested only through a writer with ranks 0..n; no extreme keys, no descending order.",
 [K,Q],[("kvtree_sort / kvtree_sort_int / kvtree_list_int and the comparison functions",K)],["iteration order after the sort"],tree)
p("C08","Packing writes exactly the documented bytes and no more",
 "The packed size reported for a tree is exactly the number of bytes that packing writes, and packing writes nothing outside them. Those bytes are the documented format: a 32-bit big-endian element count followed, element by element in iteration order, by the NUL-terminated key and the packed subtree, a missing subtree counting as empty.",
 ["inputs"],"every tree of any depth, key lengths and number of keys",
 "Tests only round-trip small trees; a size/format slip that is consistent between pack and unpack goes unseen.",
 [K],[("kvtree_pack_size / kvtree_pack and the per-element helpers",K)],["bytes of the buffer, returned sizes"],tree)
p("C09","Unpacking inverts packing",
 "Unpacking the bytes produced by packing a tree into an empty tree yields a tree with exactly the same key paths, consumes exactly the packed number of bytes, and reads nothing beyond them.",
 ["inputs"],"every tree of any shape, any bytes following the packed data",
 "Only a few fixed small trees are ever unpacked.",
 [K],[("kvtree_unpack / kvtree_elem_unpack / kvtree_elem_init",K)],["contents of the unpacked tree, returned size"],tree)
p("C10","Fixed-width integers are stored big-endian, bounds-checked and round-trip",
 "Packing a 16-, 32- or 64-bit integer at a position inside a buffer stores its bytes most significant first and advances the position by its width; unpacking at that position returns the same integer and advances equally. If the value does not fit in the remaining buffer or an argument is missing, the call fails and neither buffer, position nor output changes.",
 ["inputs"],"all values, buffer sizes and positions",
 "Only exercised through whole-file round trips, which cannot see byte order or the overrun check.",
 [H,"src/kvtree_io.h"],[("kvtree_pack_uint16/32/64_t, kvtree_unpack_uint16/32/64_t",H)],["buffer bytes, position, return value"])
p("C11","Persisted trees carry the documented header, size and checksum",
 "Persisting a tree yields a buffer consisting of the magic number, file type, version, total size, flags with the CRC bit set, the packed tree, and the CRC-32 of everything before it, all big-endian, and reports exactly that buffer's size. A missing tree or output is refused.",
 ["inputs"],"every tree",
 "No test inspects the bytes of a file; a consistent change to writer and reader breaks compatibility with existing files unnoticed.",
 [K,H,"doc/rst/users/fileformat.rst"],[("kvtree_write_persist / kvtree_persist_size",K)],["bytes of the buffer"],tree)
p("C12","What is written to a file is what is read back",
 "If writing a tree to a file reports success, the file holds exactly the persisted form of that tree, and reading that file (unless an I/O error is reported) succeeds and merges exactly that tree's key paths into the destination. Reading reports success for such a file only with the complete tree.",
 ["inputs","fault_sequences"],"every tree, every destination tree, every pattern of short reads and writes",
 "Tests write and read a few small trees on an ideal file system.",
 [K,IO],[("kvtree_write_fd / kvtree_write_file",K),("kvtree_read_fd / kvtree_read_file",K),("kvtree_read_attempt / kvtree_write_attempt",IO)],["file bytes, destination tree, return values"],tree)
p("C13","Corrupted, truncated or foreign files are rejected without damage",
 "Reading any sequence of bytes as a tree file never accesses memory outside its buffers and never crashes; if the magic number, type or version is wrong, the size field is impossible, the file is shorter than it claims, or the checksum does not match, the read reports failure and the destination tree is unchanged. An empty file is distinguished from both success with data and failure.",
 ["inputs"],"every byte sequence as file content",
 "Tests never read a damaged file.",
 [K,IO],[("kvtree_read_fd header, size and CRC checks",K),("kvtree_unpack on untrusted bytes",K)],["return value, destination tree, memory accesses"])
p("C14","Transfers are complete, in order, and persist through short counts",
 "A file transfer that reports the full length has moved every byte exactly once and in order, however the system splits it into partial reads and writes or interrupts it. A read that meets end of file reports exactly the bytes obtained, and a persistent error is reported as failure after a bounded number of attempts.",
 ["fault_sequences","inputs"],"every sequence of partial transfers, interruptions, errors and end-of-file results the system may return",
 "On local files every read and write completes in one call, so the retry paths never run in tests.",
 [IO],[("kvtree_read_attempt / kvtree_write_attempt",IO),("kvtree_open retry loop",IO)],["bytes moved, return value"])
p("C15","No file operation reports success unless it fully happened",
 "Writing a tree to a file reports success only if the file was opened, every byte of the persisted tree was written, and the file was closed without error; reading a tree from a file reports success only if it was opened, read without error and closed. On every path, successful or not, each opened file is closed exactly once after being flushed to storage.",
 ["fault_sequences"],"every combination of failing open, read, write, flush, lock and close calls",
 "No test injects a failing system call.",
 [K,IO],[("kvtree_write_file / kvtree_read_file / kvtree_write_close_unlock / *_with_lock",K),("kvtree_close",IO)],["return value, sequence of system calls"])
p("C16","Locked access touches file content only while holding the lock",
 "The locking read holds a shared lock, and the locking write and the read-modify-write pair an exclusive lock, around every access to the file's content, and release it only after the last access. If the lock cannot be obtained, the operation fails, no content is read or written through any descriptor, and nothing but the descriptor it opened is closed.",
 ["fault_sequences","schedules"],"every outcome of the lock, open, read, write and close calls; every interleaving of processes using the lock, by mutual exclusion of the lock itself",
 "The locking test cannot make a lock fail and only samples schedules.",
 [K,IO],[("kvtree_read_with_lock / kvtree_write_with_lock / kvtree_lock_open_read / kvtree_write_close_unlock",K),("kvtree_open_with_lock / kvtree_close_with_unlock / kvtree_file_lock_read_write",IO)],["order of lock, access and unlock calls"])
p("C17","Point-to-point and broadcast messages deliver the sent tree",
 "After a matching send and receive, a combined send-receive, or a broadcast, the receiving tree has exactly the key paths of the sent tree, whatever the receiver held before; the sent tree is unchanged. A rank without partner sends or receives nothing.",
 ["inputs","schedules"],"every tree, previous receiver content and rank assignment",
 "Tests send one or two fixed small trees between three ranks.",
 [M],[("kvtree_send / kvtree_recv / kvtree_sendrecv / kvtree_bcast",M)],["tree at the receiver"],tree)
p("C18","A global exchange delivers every message to its destination, tagged by source",
 "After an exchange, each rank's receive tree contains, under each source rank's number, exactly the tree that source addressed to it, and nothing else. This holds for every number of ranks, every sparse pattern of destinations including oneself, and for either routing direction.",
 ["inputs","configurations"],"every number of ranks, every destination pattern, every message tree, both directions",
 "Tests run three ranks with fixed neighbours; multi-hop forwarding and the early cut-off of hops are hardly exercised.",
 [M],[("kvtree_exchange / kvtree_exchange_direction / hop loop",M)],["receive tree on each rank"],tree)
p("C19","Gathered file sets give every rank its own tree back",
 "After all ranks gather their trees into a file set, scattering the set over the same number of ranks gives each rank exactly the tree it contributed, however the data is split over files and levels. A different number of ranks, or a missing or damaged file, makes the scatter fail on every rank.",
 ["inputs","configurations"],"every number of ranks and every distribution of tree sizes",
 "Tests use three ranks with tiny trees that fit one file, so splitting and multiple levels never happen.",
 [MI,M],[("kvtree_write_gather / kvtree_read_scatter, writer selection",MI)],["tree on each rank after scatter"],tree)
p("C20","A single process can write and read back a whole file set",
 "Writing a tree of per-rank entries as a file set and reading the set back in a single process yields every rank's entry exactly, for any number of ranks, entries per file and any file name prefix. If a part is missing or unreadable the read reports failure.",
 ["inputs","configurations"],"every rank tree, entries-per-file setting and prefix",
 "One fixed example is tested, with a plain prefix.",
 [K],[("kvtree_write_to_gather / kvtree_read_scatter_single",K)],["tree read back, return value"],tree)
p("C21","Printing shows every key at its depth for trees of any depth",
 "Printing a tree to the screen writes one line per key, in iteration order, indented by two columns per level below the starting indentation, and is safe for every tree depth and indentation. The key=value mode joins a key with its only, childless value on one line and otherwise shows the same keys.",
 ["inputs"],"every tree of any depth and every indentation",
 "The print test compares one shallow file.",
 [K],[("kvtree_print / kvtree_print_mode / kvtree_log",K)],["lines on standard output, memory accesses"],tree)
p("C22","A missing tree or key is treated as empty, never dereferenced",
 "Every tree operation given no tree, no element or no key behaves as documented - does nothing, returns nothing, zero or failure - and never crashes or modifies anything else.",
 ["inputs"],"every combination of missing arguments with arbitrary other arguments",
 "One bad-argument test covers only a NULL file name for reading.",
 [K,U],[("NULL guards at the top of the API functions",K)],["return value"])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
