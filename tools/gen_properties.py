#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Allocator never overlaps, shrinks or corrupts live blocks",
  "Every block the memory manager hands out is at least as large as requested and shares no byte with any other live block or with the manager's own bookkeeping. Resizing a block keeps its contents up to the smaller size, and freeing a block never changes the contents of other live blocks. Memory that has been freed can be merged and handed out again, so a balanced sequence of requests and releases returns the pool to its initial state.",
  ["histories", "inputs"], "all sequences of allocate, resize and free with any sizes",
  "tests allocate a handful of fixed sizes in one order; overlap needs a particular interleaving of splits, merges and resizes",
  ["core/heap.c", "core/heap.h"],
  [("heap_alloc splits larger blocks", "core/heap.c heap_alloc/heap_split_block"), ("heap_free merges buddies", "core/heap.c heap_free"), ("heap_realloc", "core/heap.c heap_realloc"), ("heap_borrow/heap_merge between threads", "core/heap.c")],
  [("freelist[]", "one doubly linked list of free blocks per power of two", "core/heap.h"), ("avail", "bitmap of non-empty orders", "core/heap.h")])
p("P02", "A value lives exactly as long as its last reference; copies are independent",
  "A value stays intact and readable while anybody holds a reference to it and is released exactly once when the last reference goes away, including everything nested inside it. Duplicating a value yields an equal value of the same type, and preparing a shared value for modification never lets the modification become visible through another reference.",
  ["histories", "inputs"], "all value kinds, contents and bounded histories of sharing, releasing, duplicating and modifying",
  "unit tests only compare printed results; a missed or doubled release shows up only for particular types and sharing patterns",
  ["core/rayforce.c", "core/rayforce.h"],
  [("reference count increments/decrements", "core/rayforce.c clone_obj/drop_obj"), ("deep copy", "core/rayforce.c copy_obj"), ("copy on write", "core/rayforce.c cow_obj")])
p("P03", "Serialising then deserialising returns an equal value",
  "For every serialisable value (atoms, vectors, strings, symbols, lists, dictionaries, tables, errors, and nested combinations, nulls and empties included) the bytes produced by serialising it are exactly as many as the announced size and deserialise to a value of the same type and contents. Deserialising consumes exactly the bytes produced.",
  ["inputs"], "all value types and contents, any nesting",
  "tests serialise a few fixed samples per type and compare printed forms",
  ["core/serde.c", "core/serde.h"],
  [("size computation", "core/serde.c size_obj"), ("writer", "core/serde.c ser_raw/ser_obj"), ("reader", "core/serde.c de_raw/de_obj")])
p("P04", "Deserialising arbitrary bytes is safe",
  "Deserialising any byte sequence, truncated, corrupted or hostile, terminates, reads only within the given bytes, writes only within memory it allocated, and returns either a well-formed value or an error. The reported remaining length never becomes negative.",
  ["inputs"], "every byte string of every length",
  "tests only feed bytes the serialiser itself produced; hostile lengths and type tags are never exercised",
  ["core/serde.c"],
  [("bounds checks before every read", "core/serde.c de_raw"), ("header validation", "core/serde.c de_obj")])
p("P05", "Interned symbols: same text gives the same symbol, and only the same text",
  "Interning a text any number of times, in any order and from any thread, always yields the same symbol, different texts yield different symbols, and the text read back from a symbol is byte for byte the text that was interned. Interning more symbols never changes the text of earlier ones.",
  ["inputs", "histories", "schedules"], "all texts, all interning orders, hash collisions included, any interleaving of two interning threads",
  "tests never force hash collisions, text that is a prefix of another, or two threads interning the same text at once",
  ["core/symbols.c", "core/symbols.h"],
  [("hash chain with locked head", "core/symbols.c symbols_intern"), ("string pool append", "core/symbols.c"), ("lookup of text", "core/symbols.c str_from_symbol")])
p("P06", "Hash tables behave as maps under collisions, deletes and growth",
  "After any sequence of insertions and lookups a hash table returns, for every key inserted, the value stored with it, and reports every other key as absent, whatever the hash values collide to and however often the table grows. Inserting a key that is already present keeps a single entry for it.",
  ["inputs", "histories"], "all key values (negative, null and extreme keys included) and insertion orders",
  "tests use small distinct keys; wrap-around probing, growth in the middle of a chain and adversarial collisions are not sampled",
  ["core/hash.c", "core/hash.h", "core/ops.c"],
  [("open addressing", "core/hash.c ht_oa_*"), ("bucketed lock-free table", "core/hash.c ht_bk_*"), ("hash and comparison functions", "core/hash.c hash_*, core/ops.c")])
p("P07", "Scalar arithmetic is exact modulo width and propagates nulls",
  "For every pair of supported scalar types, add, subtract, multiply, divide, integer divide, modulo and bar of two non-null values give the mathematically defined result in the documented result type, and a null operand gives the null of the result type. Division or modulo by zero yields null and never stops the process.",
  ["inputs"], "all operand type pairs and all operand values, nulls, zero and extreme values included",
  "tests sample a few small values per type pair; sign combinations, extremes and mixed widths are unsampled",
  ["core/math.c", "core/ops.h", "core/temporal.h"],
  [("operator macros with null tests", "core/ops.h ADDI64.. etc"), ("type dispatch", "core/math.c ray_*_partial"), ("numeric widening", "core/ops.h i16_to_i32 ...")])
p("P08", "Vector arithmetic equals element-by-element scalar arithmetic",
  "An arithmetic operation on vectors, or on a vector and a scalar, returns a vector of the same length whose every element is what the same operation gives on the corresponding scalars, with the documented element type. The operands keep their contents whenever somebody else still refers to them, and splitting the work over several workers does not change the result.",
  ["inputs", "schedules"], "all operand type pairs, shapes, lengths and contents; all ways to split the work",
  "tests compare a few literal vectors; they do not compare every type pair in every shape nor chunked execution",
  ["core/math.c", "core/pool.c"],
  [("element loops", "core/math.c __BINOP_A_V/__BINOP_V_A/__BINOP_V_V"), ("in-place reuse of an unshared operand", "core/math.c binop_map/unop_map"), ("chunking", "core/math.c + core/pool.c")])
p("P09", "Comparisons form a consistent total order with null smallest",
  "For all values of comparable types exactly one of less, equal and greater holds, the remaining comparison operators are their exact negations or unions, the order is transitive, and null equals null and is below every other value. Comparing vectors gives element by element what comparing the scalars gives, also across numeric types.",
  ["inputs"], "all comparable type pairs and all values, including nulls, infinities and negative zero",
  "tests compare a few literals of each type; order axioms quantify over triples of values",
  ["core/cmp.c", "core/ops.h", "core/rayforce.c"],
  [("comparison macros", "core/ops.h EQI64/LTI64/..."), ("type dispatch", "core/cmp.c ray_*_partial"), ("structural comparison", "core/rayforce.c cmp_obj")])
p("P10", "Sorting returns an ordered, stable permutation",
  "The ascending and descending index of a sequence is a permutation of its positions that lists the elements in non-decreasing (non-increasing) order with null first (last), and equal elements keep their original order. Sorting the sequence, ranking it, and sorting a table by columns agree with that index.",
  ["inputs"], "all element types, lengths and contents, duplicates and nulls included",
  "tests sort a few literal vectors; stability, extremes and negative values are not quantified over",
  ["core/sort.c", "core/order.c"],
  [("counting and radix passes", "core/sort.c ray_sort_asc_*/ray_sort_desc_*"), ("merge and insertion sort", "core/sort.c"), ("asc/desc/rank", "core/order.c")])
p("P11", "Aggregates skip nulls and equal their mathematical definition",
  "Sum, product-free aggregates such as minimum, maximum, count, average, first, last, median and deviation of a sequence equal their definition over its non-null elements, in the documented result type, and give null (or zero for sums and counts) when there is none. The result does not depend on how the sequence is split among workers.",
  ["inputs", "schedules"], "all element types, lengths, contents with nulls anywhere, and all chunk splits",
  "tests use short literals on one thread; null placement, extremes and chunk borders are unsampled",
  ["core/math.c", "core/items.c", "core/misc.c", "core/pool.c"],
  [("per-type folds", "core/math.c ray_sum/ray_min/ray_max/ray_avg/ray_med/ray_dev"), ("partial result combination", "core/math.c unop_fold")])
p("P12", "Grouped aggregates equal the aggregate of each group's rows",
  "Aggregating a column by groups gives, for every group, exactly what aggregating only that group's rows gives, with the same treatment of nulls, whether the rows come from a plain, filtered or partitioned column. Every group has one result, in group order.",
  ["inputs"], "all groupings, filters, column types and contents",
  "tests run a few select-by queries; nulls per group, filters and group shapes are not quantified over",
  ["core/aggr.c", "core/group.c", "core/index.c"],
  [("per-type grouped folds", "core/aggr.c aggr_*_partial"), ("mapping of rows to groups", "core/aggr.c AGGR_ITER, core/index.c index_group_*")])
p("P13", "Grouping and distinct partition rows by equality",
  "Grouping assigns two rows to the same group exactly when their keys are equal, and numbers groups in order of first appearance with no gap; this holds for single and multiple key columns, with or without a filter. The distinct values of a sequence are its values without repetition, and every value of the sequence is among them.",
  ["inputs"], "all key types and values, multi-column keys, filters",
  "tests group literals with few keys; hash collisions, dense versus sparse key ranges and nulls take different code paths chosen by the data",
  ["core/index.c", "core/hash.c", "core/compose.c"],
  [("dense range path", "core/index.c index_group_i64_scoped"), ("hash path", "core/index.c index_group_i64_unscoped"), ("multi-column path", "core/index.c index_group_list"), ("distinct", "core/index.c index_distinct_*")])
p("P14", "Search and set operations agree with element-wise equality",
  "Finding a value returns the position of its first occurrence or null; membership, intersection, difference and union contain exactly the elements their set definition prescribes; range membership and binary search return what a linear scan would. All of it holds for every supported pair of element types, sizes and value ranges.",
  ["inputs"], "all element type pairs, lengths and contents",
  "tests use small literals; the code switches algorithm on value range and length, and negatives, nulls and extremes are unsampled",
  ["core/index.c", "core/items.c", "core/rayforce.c"],
  [("find", "core/index.c index_find_*"), ("membership", "core/index.c index_in_*"), ("set operations", "core/items.c ray_sect/ray_except/ray_union"), ("binary search", "core/items.c ray_bin/ray_binr, core/index.c index_bin_*")])
p("P15", "Joins match exactly the rows with equal keys",
  "A left join keeps every left row in order and takes the other columns from the first right row with equal keys, or null when there is none; an inner join keeps exactly the matching rows. An as-of join takes, among the right rows with equal keys, the last one whose time does not exceed the left row's time.",
  ["inputs"], "all key columns, contents, duplicate and missing keys",
  "tests join a few fixed tables; duplicates, missing keys, nulls and hash collisions are unsampled",
  ["core/join.c", "core/index.c"],
  [("left and inner join index", "core/index.c index_left_join_obj/index_inner_join_obj"), ("as-of join index", "core/index.c index_asof_join_obj"), ("column assembly", "core/join.c select_column/get_column")])
p("P16", "Selecting, slicing and rearranging sequences keeps the right elements",
  "Indexing, taking, filtering by a mask, finding set positions of a mask, reversing, concatenating, cutting and generating ranges return sequences with exactly the elements and order their definition prescribes, of the same element type as the source. Out-of-range positions give null or an error, never other memory.",
  ["inputs"], "all sequence types, lengths, contents, positions, counts and masks, negative ones included",
  "tests use a few literals per function; negative counts, wrap-around takes and boundary positions are unsampled for most types",
  ["core/items.c", "core/compose.c", "core/ops.c", "core/filter.c", "core/rayforce.c"],
  [("indexing", "core/rayforce.c at_idx/at_ids/at_obj, core/items.c ray_at"), ("take/filter/where", "core/items.c, core/ops.c ops_where"), ("reverse/concat/split/til", "core/compose.c")])
p("P17", "Collection updates change only what was addressed",
  "Appending, inserting, replacing, removing and popping elements of vectors, lists and dictionaries yields exactly the collection a reference model yields: addressed positions or keys hold the new value, all others keep theirs, and the length changes accordingly. Storing a value of another type converts the collection to a general list without losing elements.",
  ["inputs", "histories"], "all collection types, contents, positions, keys and bounded sequences of updates",
  "tests exercise single updates on literals of a few types",
  ["core/rayforce.c"],
  [("append", "core/rayforce.c push_raw/push_obj/append_list"), ("replace", "core/rayforce.c set_idx/set_ids/set_obj"), ("remove", "core/rayforce.c remove_idx/remove_ids/pop_obj"), ("type widening", "core/rayforce.c diverse_obj/unify_list")])
p("P18", "Boolean connectives compute element-wise logic",
  "And, or and not of any mix of boolean scalars and vectors return element by element the logical result over all arguments, independent of argument order and of the length of the vectors, and never modify arguments somebody else still refers to.",
  ["inputs"], "all argument counts, shapes, lengths and contents",
  "tests use short literals; in-place reuse and mixed shapes are unsampled",
  ["core/logic.c", "core/order.c"],
  [("n-ary fold with buffer reuse", "core/logic.c logic_map/and_op_partial/or_op_partial"), ("not", "core/order.c ray_not")])
p("P19", "Wildcard matching agrees with its pattern language",
  "A text matches a pattern exactly when the pattern can be expanded to the text, with * standing for any run of characters, ? for exactly one character, and bracket sets for one listed (or, negated, unlisted) character. Matching any text against any pattern terminates and reads only the two given strings.",
  ["inputs"], "all texts and all patterns, malformed ones included",
  "tests try some fixed patterns; backtracking and malformed bracket sets are unsampled",
  ["core/string.c", "core/logic.c"],
  [("matcher", "core/string.c str_match"), ("operator", "core/logic.c ray_like")])
p("P20", "Numeric text is read exactly or rejected",
  "Reading a number from text yields exactly the value the text denotes, or rejects it (or reads it as null) when it is malformed or does not fit the type; it never silently yields a different number. It reports how many characters it consumed and reads no character outside the given text.",
  ["inputs"], "all texts of any length for every numeric reader",
  "tests read a few literals; overflow boundaries, missing digits and unterminated buffers are unsampled",
  ["core/string.c"],
  [("integer readers", "core/string.c i64_from_str/i32_from_str/u8_from_str"), ("float reader", "core/string.c f64_from_str"), ("guid reader", "core/string.c guid_from_str")])
p("P21", "Calendar conversions are exact inverses",
  "Converting a date, time or timestamp to its calendar components and back gives the same value for every representable value, components are always in range, later values give later components, and null converts to null. Combining a date and a time of day into a timestamp and splitting it again gives them back.",
  ["inputs"], "all dates, times and timestamps in the supported range",
  "tests convert a few dates; leap rules, values before the epoch and end-of-day borders are unsampled",
  ["core/date.c", "core/time.c", "core/timestamp.c", "core/temporal.h"],
  [("date components", "core/date.c date_from_i32/date_into_i32"), ("time components", "core/time.c"), ("timestamp components", "core/timestamp.c")])
p("P22", "Parsing any text is safe and total",
  "Parsing any text, valid or not, terminates, reads only within the given text, leaks or double-releases nothing, and returns either a value or a parse error. The same text always parses to the same result, and what follows a complete expression is not swallowed.",
  ["inputs"], "every text up to the bound, all characters",
  "tests parse well-formed programs and a few malformed ones",
  ["core/parse.c", "core/string.c"],
  [("tokeniser", "core/parse.c parser_advance/parse_number/parse_string/parse_symbol"), ("aggregates", "core/parse.c parse_vector/parse_list/parse_dict")])
p("P23", "Formatting a value and parsing it back returns the value",
  "The printed form of an integer, boolean, byte, character, date, time, timestamp, symbol or a vector of them, nulls included, parses back to a value equal to the original and of the same type. Formatting never writes outside its output buffer and honours its length limits.",
  ["inputs"], "all values of the listed types; all format limits",
  "tests print a few literals",
  ["core/format.c", "core/parse.c", "core/string.c"],
  [("formatters", "core/format.c *_fmt_into"), ("buffer growth", "core/format.c str_vfmt_into"), ("parsers", "core/parse.c")])
p("P24", "Compiled functions compute what direct evaluation computes",
  "Calling a function gives the value, or the error, that evaluating its body directly with the arguments substituted would give: operands are evaluated once each, in order, conditionals evaluate only the chosen branch, and locals do not leak into the caller. The evaluation stack returns to its previous height after every call, also after an error.",
  ["programs", "inputs"], "all bounded expressions over calls, conditionals, locals and constants, and all argument values",
  "tests call a few fixed functions; the compiler's jump and slot arithmetic depends on program shape",
  ["core/cc.c", "core/eval.c", "core/lambda.c"],
  [("compiler", "core/cc.c cc_expr/cc_call/cc_cond"), ("virtual machine", "core/eval.c call"), ("direct evaluator", "core/eval.c eval")])
p("P25", "Names resolve to the most recent binding; errors unwind cleanly",
  "Looking a name up returns the value bound last in the innermost scope that binds it, rebinding replaces only that binding, and inner bindings disappear when their scope ends. An error raised at any depth reaches the innermost handler with its value intact, and everything bound before the protected expression is unchanged afterwards.",
  ["programs", "histories"], "all bounded sequences of bind, rebind, lookup, call and raise",
  "tests try single bindings and single errors",
  ["core/eval.c", "core/binary.c", "core/env.c", "core/cond.c"],
  [("lookup", "core/eval.c resolve/resolve_in_env"), ("binding", "core/eval.c amend, core/binary.c ray_set/ray_let"), ("error handling", "core/eval.c try_obj/ray_raise/vm_error_unwind")])
p("P26", "Network messages are reassembled exactly, however the bytes arrive",
  "A stream of messages is delivered in order, each exactly once and unaltered, whatever sizes the pieces have in which its bytes arrive. A malformed handshake, header or body closes or rejects that connection without touching memory outside its buffers.",
  ["inputs", "schedules"], "all message contents and all splits of the byte stream",
  "tests talk over the loopback interface where messages arrive whole",
  ["core/ipc.c", "core/poll.c", "core/epoll.c"],
  [("read state machine", "core/ipc.c ipc_read_handshake/ipc_read_header/ipc_read_msg"), ("receive buffer", "core/poll.c poll_rx_buf_*"), ("partial reads", "core/epoll.c poll_recv")])
p("P27", "Connection identifiers are never shared by two live connections",
  "An identifier handed out for a registered connection stays valid and refers to that same connection until it is deregistered, and is never handed out again while it is live. Looking up an identifier that is not live gives nothing.",
  ["histories"], "all bounded sequences of register, deregister and lookup, growth included",
  "tests open one or two connections",
  ["core/freelist.c", "core/poll.c"],
  [("free list of slots", "core/freelist.c freelist_push/freelist_pop/freelist_get"), ("lookup", "core/poll.c poll_get_selector")])
p("P28", "Timers fire in due order, the right number of times",
  "Among the scheduled timers the one due earliest always fires first, a timer never fires before it is due, repeats exactly the requested number of times, and a removed timer never fires again. Adding or removing one timer never loses another, and the announced waiting time is the time until the next one is due.",
  ["histories", "schedules"], "all bounded sequences of add, remove and fire with any due times and any clock progress",
  "tests hardly touch timers; ordering needs particular heap shapes",
  ["core/chrono.c"],
  [("binary heap", "core/chrono.c timer_push/timer_pop/timer_up/timer_down"), ("firing", "core/chrono.c timer_next_timeout"), ("removal", "core/chrono.c timer_del")])
p("P29", "Every queued task runs exactly once and results keep their order",
  "A task put on the worker queue is taken exactly once, by one worker, with its contents intact, and a full or empty queue is reported as such, for every interleaving of producers and consumers. Work split over chunks covers every position exactly once.",
  ["schedules", "inputs"], "all interleavings of two threads on the queue; all lengths and worker counts for splitting",
  "tests run whatever schedule the machine happens to produce",
  ["core/pool.c", "core/pool.h"],
  [("bounded lock-free ring", "core/pool.c mpmc_push/mpmc_pop"), ("chunk computation", "core/pool.c pool_split_by/pool_chunk_aligned/pool_map")])
p("P30", "CSV text becomes exactly the table it describes",
  "Reading CSV text yields one row per line and one column per declared type, where every field holds the value its text denotes or the null of its type when empty or malformed. Line splitting and field quoting read only within the file contents, and writing a table as CSV and reading it back with the same types gives the table again.",
  ["inputs"], "all file contents up to the bound and all column type lists",
  "tests load a few fixed files",
  ["core/io.c", "core/string.c"],
  [("line index", "core/io.c io_build_line_index"), ("line and field parser", "core/io.c parse_csv_line/parse_csv_field"), ("writer", "core/io.c ray_write_csv")])
p("P31", "Table inserts, upserts and updates keep tables consistent",
  "Inserting rows appends them to every column, so that all columns keep equal length and earlier rows keep their values; upserting replaces exactly the rows whose key matches and appends the others. A rejected operation leaves the table as it was.",
  ["inputs", "histories"], "all table and row contents, key matches and mismatched shapes",
  "tests insert a few literal rows; partial failure and duplicate keys are unsampled",
  ["core/update.c", "core/index.c"],
  [("insert", "core/update.c ray_insert"), ("upsert", "core/update.c ray_upsert, core/index.c index_upsert_obj"), ("commit", "core/update.c __fetch/__commit")])
p("P32", "Casts preserve values that fit and map null to null",
  "Casting between numeric, boolean, character and temporal types (a temporal value counting as the number of days, milliseconds or nanoseconds that stores it) gives the same value whenever it is representable in the target type; a boolean is whether the value is not zero. A cast maps the null of the source type to the null of the target type where the target has one, and casts vectors element by element like scalars. An unsupported cast is an error and changes nothing.",
  ["inputs"], "all type pairs and values",
  "tests cast a few literals; null mapping and extremes per pair are unsampled",
  ["core/rayforce.c", "core/compose.c"],
  [("conversion table", "core/rayforce.c cast_obj"), ("operator", "core/compose.c ray_cast_obj")])
p("P33", "Map, fold and scan apply a function to each element in order",
  "Mapping applies the function once per element and collects the results in order; folding combines them left to right (or right to left for the right variants) and scanning returns every intermediate result. Results do not depend on parallel execution, and an error in one application is returned and releases everything collected so far.",
  ["inputs", "programs"], "all sequences, all function kinds, failure at any element",
  "tests map a few functions over literals",
  ["core/iter.c"],
  [("map", "core/iter.c map_unary_fn/map_binary_fn/map_vary_fn/map_lambda"), ("fold and scan", "core/iter.c ray_fold/ray_scan and left/right variants")])
p("P34", "The q-protocol plugin converts values both ways safely",
  "Every value the plugin can encode decodes back to an equal value and occupies exactly the announced number of bytes. Decoding arbitrary bytes received from a peer terminates and touches only the received bytes and memory allocated for the result.",
  ["inputs"], "all supported values; every byte string",
  "the plugin has no unit tests in the suite",
  ["ext/raykx/serde.c", "ext/raykx/raykx.c"],
  [("size", "ext/raykx/serde.c raykx_size_obj"), ("encode", "ext/raykx/serde.c raykx_ser_obj"), ("decode", "ext/raykx/serde.c raykx_des_obj")])
p("P35", "The line editor keeps its buffer consistent under any key sequence",
  "After any sequence of key presses the cursor lies within the text, the text lies within its buffer, and editing keys insert and delete whole characters at the cursor without changing other text. History navigation returns exactly the lines that were entered and never reads or writes outside the history.",
  ["inputs", "histories"], "all bounded key sequences, multi-byte characters and full buffers included",
  "the editor has no unit tests in the suite",
  ["app/term.c"],
  [("editing", "app/term.c term_handle_*"), ("history", "app/term.c hist_*"), ("character width", "app/term.c utf8_char_width/find_prev_utf8_char")])
p("P36", "Partitioned columns behave like their concatenation",
  "Reading, counting, comparing, filtering and aggregating a partitioned column gives the same result as doing so on the plain column that concatenates its partitions. Every row number addresses the row it addresses in the concatenation.",
  ["inputs"], "all partition sizes (empty ones included), element types, contents and row numbers",
  "tests build a few partitioned tables on disk",
  ["core/rayforce.c", "core/filter.c", "core/aggr.c", "core/ops.c", "core/cmp.c"],
  [("indexing across partitions", "core/rayforce.c at_idx/at_ids"), ("filtering", "core/filter.c filter_collect"), ("partition-wise aggregation", "core/aggr.c aggr_map_parted")])
p("P37", "A query equals filtering, grouping and evaluating row by row",
  "Selecting from a table with a condition, a grouping and result expressions returns what filtering the rows, grouping them by key and evaluating each expression over each group's rows returns. The source table is unchanged by the query.",
  ["programs", "inputs"], "all small tables and a family of queries with and without condition and grouping",
  "tests run fixed queries on fixed tables",
  ["core/query.c", "core/filter.c", "core/group.c", "core/aggr.c"],
  [("query pipeline", "core/query.c ray_select and select_* stages"), ("lazy filter", "core/filter.c"), ("lazy grouping", "core/group.c")])

with open(OUT, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import sys
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x, sch)
    print(len(P), "ok")
except ImportError:
    print(len(P), "written (no jsonschema)")
