# Property definitions; executed by gen.py.
prop("K01", "Primary keys form a total order by value",
 "Comparing any two primary keys of one table yields one consistent total order: reflexive, antisymmetric, transitive, agreeing with equality and hashing, and equal to the natural order of the values (numeric, lexicographic by byte, component by component; not-a-number after every number, both zeros equal). Versions of one key order newest first.",
 ["inputs"], "for every pair and triple of keys of every supported type and any commit timestamps",
 "The tests compare a handful of literal keys; ordering laws are statements over all triples, including NaN, signed zero, prefixes and empty strings.",
 ["src/key/owned.rs", "src/key/row.rs", "src/key/ts.rs"],
 [("dynamic row comparison and hashing", "src/key/row.rs: dyn_rows_cmp, hash of cells"), ("timestamped keys", "src/key/ts.rs: Ord impls")],
 ["key"],
 [H("vh_key_int64", "three arbitrary 64-bit signed keys, two timestamps", "laws, value order, owned = borrowed, version order", [1,2,3]),
  H("vh_key_int32", "three arbitrary 32-bit signed keys", "same laws", [1,2,3]),
  H("vh_key_uint", "three arbitrary u64, u32 or bool keys", "same laws", [1,2,3]),
  H("vh_key_bytes", "three byte strings of 0..=2 arbitrary bytes", "same laws, lexicographic order", [1,2,3]),
  H("vh_key_bytes3", "three byte strings of 0..=3 arbitrary bytes", "same laws, lexicographic order", [1,2,3]),
  H("vh_key_text", "three ASCII strings of 0..=2 characters", "same laws", [1,2,3]),
  H("vh_key_f64", "three arbitrary 64-bit floats (all bit patterns)", "same laws, IEEE order where defined", [1,2,3], fp=True),
  H("vh_key_f32", "three arbitrary 32-bit floats (all bit patterns)", "same laws", [1,2,3], fp=True),
  H("vh_key_composite", "three (bytes 0..=1, u32) keys", "same laws", [1,2,3]),
  H("vh_key_composite2", "three (i64, i32) keys", "same laws, component order", [1,2,3]),
  H("vh_key_composite3", "three (i32, i32, i32) keys", "same laws, component order", [1,2,3])])
prop("K02", "Stored keys survive serialisation unchanged",
 "A primary key written into metadata and read back equals the original, keeps the type of every component and the number of components; this holds for every supported type and value, including empty and non-printable strings, infinities, not-a-number and signed zero.",
 ["inputs"], "for every key of every supported type and composite keys within the bound",
 "Tests round-trip a few literals.",
 ["src/key/owned.rs"], [("serde of owned keys", "src/key/owned.rs: Serialize/Deserialize for KeyOwned")],
 ["key"],
 [H("vh_key_serde", "any i64, i32, u64, u32, bool key or (bytes 0..=2, u32) key, through serde_json values", "value, arity and component types kept", [1]),
  H("vh_key_serde_text", "any ASCII text or binary key of 0..=3 bytes, or (text, i64, bytes) key", "same", [1]),
  H("vh_key_serde_float", "any 32- or 64-bit float key (all bit patterns), or both together", "same, bit for bit (any not-a-number for another)", [1], fp=True),
  H("vh_key_json", "integer keys within 1 of 5 border values, text and binary keys of 0..=1 bytes, composite keys, through JSON text", "same", [1]),
  H("vh_key_json_float", "float keys within one bit pattern of 8 (f64) and 5 (f32) special values, through JSON text", "same, bit for bit", [1], fp=True)])
prop("M01", "Reads of the active table see the newest version at their snapshot",
 "A read at any snapshot of the active in-memory table returns, for each key with a version at or below the snapshot, exactly the newest such version (a row or a delete) and nothing else, keys ascending, whatever the order in which inserts and deletes arrived.",
 ["histories", "inputs"], "for every history of inserts and deletes, every commit timestamp assignment and every read snapshot",
 "Tests fix a few keys and ascending timestamps; the property is over all histories including out-of-order timestamps and repeated keys inside one batch.",
 ["src/inmem/mutable/memtable.rs", "src/mvcc/mod.rs"],
 [("row and tombstone scan", "src/inmem/mutable/memtable.rs: DynRowScan"), ("version visibility", "src/key/ts.rs")],
 ["memtable"],
 [H("vh_mem_big", "1100 rows in one or two batches out of key order, 22 deletes, 11 rewrites; five snapshots, whole or in a range", "active and sealed table equal the model", [1,2]),
  H("vh_mem_visible3", "3 single-row writes (insert or delete each), arbitrary i64 keys, u64 timestamps, snapshot", "scan equals the reference model", [1,2,3]),
  H("vh_mem_batches", "one two-row insert batch and one two-key delete batch, either order", "scan equals the reference model", [1,2]),
  H("vh_mem_rowts2", "one two-row insert batch with its own timestamp per row", "scan equals the reference model", [1,2]),
  H("vh_mem_rowts3", "one three-row insert batch with its own timestamp per row", "scan equals the reference model", [1,2]),
  H("vh_mem_wide", "table whose key is not the first column, two writes", "scan equals the reference model", [1,2]),
  H("vh_mem_visible4", "4 single-row writes", "scan equals the reference model", [1,2,3], thorough_only=True, timeout=3000)])
prop("M02", "Sealing the active table loses and changes nothing",
 "After the active table is sealed, reads at any snapshot of the sealed table return what the active table would have returned, every version is enumerated exactly once in key order newest first, the columns handed to flushing contain exactly the written rows and deletes, and the key and timestamp bounds are exact; the active table is empty.",
 ["histories", "inputs"], "for every history of inserts and deletes, timestamps and snapshot",
 "Tests seal a couple of fixed histories.",
 ["src/inmem/immutable/memtable.rs", "src/inmem/mutable/memtable.rs"],
 [("seal", "src/inmem/mutable/memtable.rs: seal_now"), ("sealed segment", "src/inmem/immutable/memtable.rs")],
 ["memtable"],
 [H("vh_mem_big", "the same large table, sealed", "sealed table equals the model", [1,2]),
  H("vh_imm_visible2", "2 writes, arbitrary keys, timestamps, snapshot", "sealed scan equals the model", [1,2,3]),
  H("vh_imm_visible3", "3 writes", "sealed scan equals the model", [1,2,3]),
  H("vh_imm_versions2", "2 writes", "all versions, order, columns, delete columns, bounds", [1,2]),
  H("vh_imm_versions3", "3 writes", "all versions, order, columns, delete columns, bounds", [1,2]),
  H("vh_imm_rowts2", "one two-row insert batch with its own timestamp per row, sealed", "sealed scan equals the model", [1,2]),
  H("vh_imm_rowts3", "one three-row insert batch with its own timestamp per row, sealed", "sealed scan equals the model", [1,2]),
  H("vh_imm_rewrite", "two writes of the same key and timestamp", "the later one is kept", [1,2]),
  H("vh_imm_wide", "table whose key is not the first column, two writes, sealed", "sealed scan equals the model", [1,2]),
  H("vh_imm_visible4", "4 writes", "sealed scan equals the model", [1,2,3], thorough_only=True, timeout=3000)])
prop("M03", "A range read returns the full read restricted to the range",
 "Reading any key range (inclusive, exclusive or open at either end) of an active or sealed in-memory table at any snapshot returns exactly the visible versions whose keys lie in the range.",
 ["histories", "inputs"], "for every history, bound kind, bound value and snapshot",
 "Tests read two or three literal ranges; off-by-one and version-boundary errors need specific combinations.",
 ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/key/ts.rs"],
 [("range scans", "scan_visible_in_range in both tables"), ("bound to version translation", "src/key")],
 ["memtable"],
 [H("vh_mem_range2", "2 writes, all nine bound-kind pairs, arbitrary bounds and snapshot (active table)", "scan equals the restricted model", [1,2,3]),
  H("vh_imm_range2", "2 writes, all nine bound-kind pairs (sealed table)", "scan equals the restricted model", [1,2,3]),
  H("vh_mem_range3", "3 writes (active table)", "scan equals the restricted model", [1,2,3], thorough_only=True, timeout=3000),
  H("vh_imm_range3", "3 writes (sealed table)", "scan equals the restricted model", [1,2,3], thorough_only=True, timeout=3000)])
prop("M04", "Conflict detection reports exactly the overwritten keys",
 "Asking whether a key was written after a snapshot answers yes exactly when some insert or delete of that key has a commit timestamp above the snapshot, before and after sealing.",
 ["histories", "inputs"], "for every history, probed key and snapshot",
 "Tests probe one key; a missed conflict is a lost update.",
 ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs"],
 [("conflict probes", "has_conflict in both tables")],
 ["memtable"],
 [H("vh_conflict2", "2 writes, arbitrary probe and snapshot", "answer equals the model, active and sealed", [1,2]),
  H("vh_conflict3", "3 writes", "answer equals the model, active and sealed", [1,2])])
prop("M05", "Full tables seal themselves without losing writes",
 "With any batch capacity, every accepted write ends up in exactly one table, active or sealed, when the active table seals itself; empty and rejected batches neither fail later writes nor occupy the table.",
 ["histories", "configurations"], "for every capacity within the bound and every sequence of good, empty and ill-typed batches",
 "Tests fill one table once; losing a write needs the write that triggers the seal, after empty or rejected batches.",
 ["src/inmem/mutable/memtable.rs"],
 [("slot reservation and automatic seal", "src/inmem/mutable/memtable.rs: insert paths")],
 ["memtable"],
 [H("vh_autoseal3", "capacity 1 or 2, 3 writes", "every version in exactly one place", [1,2]),
  H("vh_reject", "capacity 1 or 2, 3 steps each an empty batch, an ill-typed batch, an insert or a delete", "later writes succeed and are kept", [1]),
  H("vh_reject_null", "capacity 1 or 2, 3 steps each a batch with a null key, a delete with a null key, an insert or a delete", "rejected batches take no room and seal nothing; the rest is kept", [1,2]),
  H("vh_autoseal4", "capacity 1 or 2, 4 writes", "every version in exactly one place", [1,2], thorough_only=True, timeout=3000)])
prop("Q01", "Merged reads return the newest version across layers",
 "A read that merges staged writes, the active table and sealed tables returns per key the newest visible version among all layers once, hides deleted keys, keeps keys in order, lets staged writes win, and with a row limit returns the first rows of that result.",
 ["histories", "inputs", "configurations"], "for every distribution of writes over layers, timestamps, snapshot and limit within the bound",
 "Tests merge a few literal layers; shadowing errors need equal keys in particular layers with particular timestamps.",
 ["src/query/stream/merge.rs", "src/query/stream/mod.rs"],
 [("k-way merge", "src/query/stream/merge.rs: MergeStream")],
 ["mergeq"],
 [H("vh_mergeq_big", "1100 rows under 275 deletes under 60 rewrites; four snapshots, four limits", "output equals the model", [1]),
  H("vh_merge2", "2 writes spread over layers, arbitrary keys, timestamps, snapshot", "output equals the model", [1,2,3]),
  H("vh_merge3", "3 writes spread over layers", "output equals the model", [1,2,3]),
  H("vh_merge_limit2", "2 writes, arbitrary limit", "output is the prefix of the model", [4,5]),
  H("vh_merge_limit3", "3 writes, arbitrary limit", "output is the prefix of the model", [4,5]),
  H("vh_merge3x", "3 writes, more layers", "output equals the model", [1,2,3], thorough_only=True, timeout=3000),
  H("vh_merge4x", "4 writes, more layers", "output equals the model", [1,2,3], thorough_only=True, timeout=6000)])
prop("Q02", "Transactions read and commit their own staged writes",
 "Looking up or scanning a transaction's staged writes yields each staged key once, in key order, as the row last staged or as a delete; what is committed is exactly those rows and deletes, all with the commit timestamp, and applied to a table they read back as staged; deletes by incomplete keys are refused.",
 ["histories", "inputs"], "for every sequence of staged upserts and deletes within the bound",
 "Tests stage a few literal keys.",
 ["src/transaction/mod.rs"], [("staged scan", "src/transaction/mod.rs: TransactionScan"), ("staged writes", "src/transaction/mod.rs: StagedMutations"), ("batches to commit", "src/transaction/mod.rs: build_record_batch, build_delete_batch")],
 ["mergeq"],
 [H("vh_txn_scan2", "2 staged mutations", "entries equal the model", [1,2,3]),
  H("vh_txn_scan3", "3 staged mutations", "entries equal the model", [1,2,3]),
  H("vh_stage2", "2 writes of arbitrary keys, any probe", "staged, looked up and handed over as the model", [1,2]),
  H("vh_stage3", "3 writes of arbitrary keys, any probe", "same", [1,2]),
  H("vh_stage_commit2", "2 writes committed into an empty table at any timestamp", "the table holds the staged writes", [1]),
  H("vh_stage_commit3", "3 writes committed into an empty table at any timestamp", "same", [1]),
  H("vh_stage_refused", "deletes by keys with a null or of the wrong arity", "refused", [1,2])],
 optional_groups=["in_transaction__mod"])
prop("Q03", "Scan planning never skips a matching key",
 "Key bounds derived from predicates, and their intersections and unions, never rule out a key or key range that satisfies them; literals compare with stored keys by value whatever their width; the upper bound of a string prefix lies above every string with that prefix; row-set intersection, union and selections denote exactly the selected rows; the columns read are exactly those asked for and those the predicate names.",
 ["inputs"], "for every bound pair, key, literal width and value, prefix and row set within the bound",
 "Tests use a few literal bounds; wrongly skipped rows need particular inclusive/exclusive, width or code-point combinations.",
 ["src/query/scan.rs", "src/key/row.rs"],
 [("key bounds algebra", "src/query/scan.rs: KeyBounds"), ("row sets", "src/query/scan.rs: RowSet"), ("prefix successor", "src/query/scan.rs"), ("literals as keys", "src/query/scan.rs: scalar_to_key")],
 ["queryscan"],
 [H("vh_bounds_one", "any lower/upper/range/empty bounds over i64, any key range", "no matching range skipped; outside keys excluded", [1,2]),
  H("vh_bounds_two", "any two bounds", "intersection and union envelope never skip", [1,3,4]),
  H("vh_rowset2", "row sets over 0..=2 rows", "algebra equals bit sets", [1]),
  H("vh_rowset3", "row sets over 0..=3 rows", "algebra equals bit sets", [1]),
  H("vh_prefix1", "any one-character prefix, any extension", "successor is an upper bound", [1,2]),
  H("vh_prefix2", "any two-character prefix, any extension", "successor is an upper bound", [1,2]),
  H("vh_literal_int", "any integer literal of 8 widths against any integer key of 4 types", "comparison by value", [1,2]),
  H("vh_literal_bytes", "text, binary (0..=2 bytes) and bool literals in 7 forms", "literal equals the stored key", [1]),
  H("vh_literal_float", "any f32/f64 literal", "comparison by value", [1], fp=True),
  H("vh_literal_point", "any 64-bit literal against any integer key of 4 types", "point lookup finds exactly the key of that value", [1]),
  H("vh_columns", "any projection of 0..=2 and predicate over 0..=2 of 3 columns or an unknown one", "reads exactly the columns asked for and named; unknown refused", [1,2,3])],
 optional_groups=["in_query__scan"])
prop("V01", "Version edits add and remove exactly what they name",
 "Applying any sequence of table additions, removals and log-reference updates to a version yields exactly the tables added and not removed on each level, keeps every referenced log segment, and the log floor is the oldest referenced segment.",
 ["histories"], "for every sequence of edits within the bound, applied one by one or together",
 "Tests apply two or three fixed edits.",
 ["src/manifest/domain.rs"], [("edit application", "src/manifest/domain.rs: VersionState::apply_edits")],
 ["compact"],
 [H("vh_edits2", "2 edits, one by one", "tables and log references equal the model", [1,2,3,4]),
  H("vh_edits2t", "2 edits applied together", "tables and log references equal the model", [1,2,3,4]),
  H("vh_edits3", "3 edits, one by one, arbitrary segment numbers", "tables and log references equal the model", [1,2,3,4]),
  H("vh_edits3t", "3 edits applied together", "tables and log references equal the model", [1,2,3,4])])
prop("P01", "Compaction planning picks a legal task whenever a level is over its limit",
 "A compaction is planned exactly when some level at or above the requested minimum is over its file or byte limit, topmost such level first; its inputs exist, are distinct, lie on the source level or the next, respect the file and byte limits, include every overlapping table of the next level, and its key range covers them.",
 ["inputs", "configurations"], "for every table layout within the bound, any key ranges, sizes and limits",
 "Tests plan a few literal layouts.",
 ["src/compaction/planner.rs", "src/compaction/orchestrator.rs"],
 [("leveled planner", "src/compaction/planner.rs: LeveledCompactionPlanner"), ("input resolution", "src/compaction/orchestrator.rs: resolve_inputs")],
 ["compact"],
 [H("vh_plan_l0", "3 top-level tables, arbitrary key ranges and count limits", "task legality and necessity", [1,3]),
  H("vh_plan_l0b", "3 top-level tables, arbitrary sizes and byte limits", "task legality and necessity", [1,3]),
  H("vh_plan_l1", "layout 1/2/1, arbitrary key ranges, limits, minimum level 0..=2", "task legality and necessity", [1,2,3]),
  H("vh_plan_l1x", "layout 0/2/2, arbitrary key ranges", "task legality and necessity", [1,2,3]),
  H("vh_plan_l1b", "layout 1/2/1, arbitrary sizes and byte limits", "task legality and necessity", [1,2,3]),
  H("vh_plan_stats", "layout 1/2/1, statistics present or missing per table", "task legality and necessity", [1,2,3]),
  H("vh_plan_big", "layout 2/3/2, arbitrary key ranges and byte limits", "task legality and necessity", [1,2,3], thorough_only=True, timeout=6000)])
prop("P02", "Compaction results replace exactly their inputs and keep needed log segments",
 "Committing a compaction removes exactly the input tables, adds exactly the outputs and leaves the rest; log segments still needed by a surviving or new table, or by a table whose needs are unknown, stay referenced; exactly the files of the inputs and the unreferenced segments are up for deletion. Output tables get fresh identifiers and the configured size limits.",
 ["histories", "inputs"], "for every set of live tables, log references, inputs and outputs within the bound",
 "Tests cover a few literal outcomes; data loss needs a particular combination of shared or unknown references.",
 ["src/compaction/executor.rs", "src/compaction/orchestrator.rs", "src/manifest/domain.rs"],
 [("outcome to edits", "src/compaction/executor.rs: CompactionOutcome"), ("log reconciliation and GC plan", "src/compaction/orchestrator.rs")],
 ["compact"],
 [H("vh_outcome2", "2 live tables, 3 log segments with arbitrary numbers, any inputs, 0..=1 outputs", "version, log references and deletions equal the model", [1,2,3]),
  H("vh_outcome3", "3 live tables, 0..=1 outputs", "version, log references and deletions equal the model", [1,2,3], thorough_only=True, timeout=6000),
  H("vh_exec_caps", "levels 0..=7, any or no row and byte limits", "limits on output tables equal the model", [1,2]),
  H("vh_exec_ids", "any first identifier, 3 allocations by an executor, its clone or the shared counter", "no identifier is handed out twice", [1])],
 optional_groups=["in_compaction__executor"])
prop("W01", "Log records decode to what was encoded",
 "Encoding a log record (begin, rows, deletes, commit, abort) and decoding the bytes yields the same record with the same sequence number, transaction, timestamps, rows, nulls and keys; byte strings that are not a whole well-formed frame with a matching checksum are refused; rows or deletes that do not carry one commit timestamp are refused.",
 ["inputs"], "for every record kind, sequence number, payload, row content and byte string within the bound",
 "Tests encode a few literal frames; codec errors hide in particular values, nulls, empty batches, slices or header bytes.",
 ["src/wal/frame.rs", "src/wal/mod.rs"], [("frame codec", "src/wal/frame.rs: Frame, FrameHeader"), ("record codec", "src/wal/frame.rs: encode_command, decode_frame"), ("commit column", "src/wal/mod.rs: append_commit_column, split_commit_column")],
 ["walcodec"],
 [H("vh_frame_big", "payloads of 255, 256, 65535, 65536, 70001 bytes, intact or with one damaged byte", "round trip; damage refused", [1]),
  H("vh_cmd_big", "records of 1100 rows or deletes, beyond 64 KiB", "round trip", [1,2]),
  H("vh_frame_roundtrip", "payload of 0..=6 arbitrary bytes, any sequence number", "round trip", [1,2]),
  H("vh_frame_accept", "every byte string of 0..=27 bytes", "accepted exactly when well formed", [1,2,3]),
  H("vh_cmd_markers", "begin, commit, abort with any ids and timestamps", "round trip, wrong lengths refused", [1]),
  H("vh_cmd_append", "0..=2 rows (i64, nullable i32, nullable byte string 0..=1), whole batches and slices", "round trip", [1,2,3]),
  H("vh_cmd_deletes", "0..=2 deletes with arbitrary keys and timestamps", "round trip, mixed timestamps refused", [1,2]),
  H("vh_cmd_mixed", "1..=2 rows, 0..=3 commit timestamps", "accepted exactly with one timestamp for every row", [1,2])])
DISK = ["disk model: fsync/fdatasync make the file's current contents and its directory entry durable; creating and unlinking a directory entry is durable at once; a crash leaves any of the contents a file went through since its last sync, an append torn after any byte; replacing the small state file is atomic and durable (compare-and-swap put)",
        "scheduling: the writer task and its callers run on a single-threaded executor with virtual time; commands arrive one by one or queued together"]
WALF = ["src/wal/writer.rs", "src/wal/storage.rs", "src/wal/replay.rs", "src/wal/frame.rs", "src/wal/state.rs"]
prop("W02", "Replay returns every logged record exactly once and in order",
 "After any sequence of appends, queued bursts, automatic or requested segment rotations and clean restarts, replay returns exactly the appended records, each once, unchanged and in append order; frame sequence numbers grow along the whole log and match the acknowledgements; the segment bounds the writer reports are those on disk.",
 ["histories", "inputs", "configurations"], "for every sequence of appends, bursts, rotations and restarts within the bound, every record content, segment size class and sync policy",
 "Tests append a few frames in one or two fixed patterns; duplicates, reordering or reused sequence numbers need a rotation or restart at a particular moment.",
 WALF, [("writer task", "src/wal/writer.rs"), ("segments and recovery", "src/wal/storage.rs"), ("replay", "src/wal/replay.rs: Replayer")],
 ["wal"],
 [H("vh_wal_long", "13 records in 13 segments, restarted anywhere among them, listed in reverse", "replay equals what was written", [1,3]),
  H("vh_wal_many", "140 records queued at once (the writer takes 64 in one go), one arbitrary anywhere among them; one segment or several; two policies", "replay equals what was written", [1,2]),
  H("vh_wal_order", "3 records with arbitrary contents, segment size one record / two / unlimited, after each: queue on, go on, rotate or restart", "replay, sequence numbers, acknowledgements, reported bounds", [1,2,3,4]),
  H("vh_wal_order_s", "the same with the state file and any of the four sync policies", "same", [1,2,3,4]),
  H("vh_wal_order_k", "2 records of any of three kinds", "same", [1,2,3,4]),
  H("vh_wal_age", "2 records, maximum segment age, pauses and restarts", "same; no segment outlives its maximum age", [1,2,3]),
  H("vh_wal_age_time", "the same with timed syncing", "same", [1,2,3]),
  H("vh_handle_ops_rot", "2 records of any kind with symbolic rows, deletes and timestamps through the log handle", "replay, acknowledgements, queue and byte accounting, refusal after shutdown", [1]),
  H("vh_wal_order4", "4 records", "same", [1,2,3,4], thorough_only=True, timeout=3000),
  H("vh_handle_ops", "as vh_handle_ops_rot in one segment", "same", [1], thorough_only=True)], DISK, ["in_wal__mod"])
prop("W03", "Damaged log bytes are never replayed or destroyed",
 "A log whose stored frames were damaged (any change to magic, version, checksum or payload bytes) is refused by replay and by the writer, and opening it leaves its bytes as they were.",
 ["inputs", "faults"], "for every damaged byte position, every wrong value, in every frame",
 "Tests flip one byte; the property is over every position and value.",
 WALF, [("checksum", "src/wal/frame.rs: FrameHeader"), ("replay", "src/wal/replay.rs"), ("tail recovery", "src/wal/storage.rs")],
 ["wal"],
 [H("vh_wal_corrupt", "2 frames, any changed byte (except sequence, type and length fields, which the checksum does not cover), any wrong value", "replay and writer refuse, bytes untouched", [1])], DISK)
prop("W04", "Acknowledged writes survive crashes and disk errors",
 "When every append is synced, a crash at any moment (also between segments, inside an append, during recovery, or twice) and any single failing disk operation lose no acknowledged record; what survives is a prefix of the appended records; afterwards the log accepts new records, which follow the surviving ones with growing sequence numbers.",
 ["crash points", "faults", "histories"], "for every crash point and torn length, every failing step, every history within the bound",
 "Tests truncate one file at one place; losing acknowledged data needs a stop at a particular step.",
 WALF, [("durable append", "src/wal/writer.rs"), ("tail recovery", "src/wal/storage.rs")],
 ["wal"],
 [H("vh_wal_crash", "3 records, one segment, stop before any step, torn after any byte", "acknowledged kept, prefix, usable afterwards", [1,2,3]),
  H("vh_wal_crash_rot", "3 records, a segment per record", "same", [1,2,3]),
  H("vh_wal_crash_twice", "2 records, one segment, second stop during recovery", "same", [1,2,3,5]),
  H("vh_wal_crash_twice_rot", "2 records, small segments, second stop during recovery", "same", [1,2,3,5]),
  H("vh_wal_crash_state", "2 records, small segments, state file", "same", [1,2,3]),
  H("vh_wal_fault", "2 records, one failing step (an append possibly half done), optional crash", "acknowledged kept, failure reported, usable afterwards", [1,2]),
  H("vh_wal_fault_rot", "2 records, a segment per record", "same", [1,2]),
  H("vh_txn_crash", "a transaction of rows, deletes and commit with symbolic contents, stop before any step, torn near frame boundaries", "acknowledged kept, prefix", [1,2]),
  H("vh_txn_crash_rot", "the same with a segment per record", "same", [1,2]),
  H("vh_txn_crash_fine", "as vh_txn_crash, torn after any byte", "same", [1,2], thorough_only=True, timeout=3000),
  H("vh_wal_crash4", "4 records, small segments", "same", [1,2,3], thorough_only=True, timeout=3000),
  H("vh_wal_crash_twice3", "3 records, small segments, second stop during recovery", "same", [1,2,3,5], thorough_only=True, timeout=3000)], DISK, ["in_wal__mod"])
prop("W05", "Trimming the log never removes a record still needed",
 "Segment references collected for the manifest cover every segment holding a frame not yet flushed and every segment newer than the recorded floor, with exact bounds; pruning below the floor removes exactly the older segments (a dry run removes nothing); replay from a floor returns exactly the records at or above it; the retention cap drops only the oldest sealed segments, no more than needed.",
 ["histories", "inputs", "configurations"], "for every segment layout within the bound, every first needed frame, recorded floor and retention cap",
 "Tests prune one fixed layout.",
 ["src/wal/manifest_ext.rs", "src/wal/storage.rs", "src/wal/replay.rs", "src/wal/writer.rs"],
 [("segment references and pruning", "src/wal/manifest_ext.rs"), ("replay floor", "src/wal/replay.rs: scan_with_floor"), ("retention", "src/wal/writer.rs")],
 ["wal"],
 [H("vh_prune_long", "13 segments, restarted, live data and floor at seven places", "exactly the records from the floor on remain", [1,2,3]),
  H("vh_wal_prune", "3 records over every segment layout, any needed frame, any recorded floor", "references, dry run, pruning, replay from the floor", [1,2,3,4]),
  H("vh_wal_floor", "3 records over every layout, any floor frame number", "records at or above the floor, all and only", [1,2]),
  H("vh_wal_retention", "3 one-record segments, any cap below 200 bytes, optional restart", "oldest first, no more than needed", [1,2,3])], DISK)
prop("W06", "Sync policies keep their promises",
 "Under the byte-interval policy a crash loses less than the configured number of bytes; under the time-interval policy no record acknowledged longer ago than the interval is lost; under the synchronous policy nothing acknowledged is lost; a clean shutdown loses nothing under any of them.",
 ["crash points", "histories", "configurations"], "for every sequence of bursts, pauses and rotations within the bound and every surviving state of the disk",
 "Tests count sync calls of a fixed run; the promise is about what a crash at any point leaves.",
 ["src/wal/writer.rs", "src/wal/storage.rs"], [("sync policy", "src/wal/writer.rs")],
 ["wal"],
 [H("vh_wal_sync_bytes", "5 records in any bursts and pauses, one segment, threshold of one record, between one and two, or two", "less than the threshold is lost", [1,2,3,4]),
  H("vh_wal_sync_bytes_rot", "the same with 3 records and small segments", "same", [1,2,3,4]),
  H("vh_wal_sync_time", "4 records in any bursts and pauses (shorter or longer than the interval), one segment", "nothing older than the interval is lost", [1,2,3,4]),
  H("vh_wal_sync_time_rot", "the same with 3 records and small segments", "same", [1,2,3,4]),
  H("vh_wal_sync_always", "3 records, small segments", "nothing acknowledged is lost", [1,2,4])], DISK)
prop("W07", "Inspecting the log never disturbs its writer",
 "Collecting segment references while the writer is anywhere inside an append neither fails an append nor loses, changes or duplicates a record.",
 ["schedules", "inputs"], "for every interleaving of collection with the halves of an append within the bound",
 "Tests collect references on an idle log.",
 ["src/wal/manifest_ext.rs", "src/wal/storage.rs", "src/wal/writer.rs"], [("collection", "src/wal/manifest_ext.rs: collect_wal_segment_refs"), ("tail inspection", "src/wal/storage.rs")],
 ["wal"],
 [H("vh_wal_collect_live", "2 appends, collection before, inside or after each", "appends succeed, replay exact", [1,2])], DISK)
prop("W08", "The recorded log state agrees with the log",
 "After a clean shutdown the state file names the highest commit timestamp logged (also when commits arrived out of order), the last frame, and exactly the segments on disk with their bounds; after a crash it is never behind an acknowledged commit or frame, so a restarted database does not reuse them, and the next clean run brings it back in line.",
 ["histories", "crash points"], "for every sequence of commits, rotations and restarts within the bound and every crash point",
 "Tests read the state after one ascending run.",
 ["src/wal/state.rs", "src/wal/writer.rs", "src/wal/storage.rs"], [("state file", "src/wal/state.rs: WalState, WalStateHandle"), ("state upkeep", "src/wal/writer.rs")],
 ["wal"],
 [H("vh_wal_state", "2 commits (timestamps in any order) or aborts, rotation or restart between, optional retention cap", "state equals the disk", [1,2,3]),
  H("vh_wal_state_rot", "3 commits or aborts, small segments", "state equals the disk", [1,2,3]),
  H("vh_wal_state_crash", "2 commits or aborts, small segments, optional retention cap, stop before any step, then a clean run", "never behind what was acknowledged; agrees with the disk after the clean run", [1,2,3])], DISK)
MANF = ["src/manifest/driver.rs", "src/manifest/bootstrap.rs", "src/manifest/domain.rs", "src/manifest/codec.rs"]
prop("V02", "Published table versions are atomic, ordered and immutable",
 "Publishing edits makes one new version holding exactly the previous version with those edits, under a higher timestamp; every version ever published stays readable as published and is listed newest first; a publish expecting another head is refused, and a refused publish changes nothing and holds no lease; the log floor follows the newest version. A crash or a disk error at any step leaves the old or the new version whole; of concurrent publishers every acknowledged one takes effect and none is lost.",
 ["histories", "crash points", "faults", "schedules"], "for every sequence of publishes within the bound, every crash and fault step, and every point at which another process publishes",
 "Tests publish a fixed sequence in one process without crashes or rivals.",
 MANF, [("publish", "src/manifest/driver.rs: apply_version_edits_inner"), ("reads", "src/manifest/driver.rs: snapshot_latest, snapshot_at_version, list_versions, wal_floor"), ("instances", "src/manifest/bootstrap.rs")],
 ["manifest"],
 [H("vh_man_many", "13 publishes over three levels, reopened among them; listings and old versions of any age", "history equals what was published", [1]),
  H("vh_man_ops1", "1 publish of any kind (4 edit sets, plain / expecting the head / expecting another), reopen", "history equals the model, no lease left", [2,3]),
  H("vh_man_ops2", "2 publishes of any kind, reopen", "same", [1,2,3]),
  H("vh_man_long", "3 fixed publishes and 1 of any kind", "same", [1,2]),
  H("vh_man_crash0", "first publish, stop before any step", "old or new version, acknowledged kept", [1,3]),
  H("vh_man_crash1", "second publish, stop before any step", "same", [1,3]),
  H("vh_man_crash2", "third publish, stop before any step", "same", [1,3]),
  H("vh_man_recover0", "first publish, stop before any step, leases expired, publish again", "old or new version, publishable again", [1,2,3]),
  H("vh_man_recover1", "second publish, same", "same", [1,2,3]),
  H("vh_man_recover2", "third publish, same", "same", [1,2,3]),
  H("vh_man_race", "two publishers, one set aside before any metadata step while the other publishes", "no acknowledged publish lost, conflicts reported", [1,2,3,4,5,6]),
  H("vh_man_race_cas", "the same, the first expecting the head", "same", [1,2,3,5,6]),
  H("vh_man_race_rival", "the same, the second expecting the head", "same", [1,2,4,5,6]),
  H("vh_man_race_both", "the same, both expecting the head", "at most one succeeds", [1,2,5,6]),
  H("vh_man_fault", "one failing step during a publish", "acknowledged visible, otherwise unchanged", [1]),
  H("vh_man_ops3", "3 publishes of any kind, reopen", "history equals the model", [1,2,3], thorough_only=True, timeout=3000)], DISK)
prop("V03", "A table keeps its identity and shape in the catalog",
 "Registering a table records its definition; registering the same name again, also from another process, after a restart or after a crash at any step, finds the same table, and is refused exactly when key columns, schema fingerprint, schema version or retention differ; tables of different names never share an identity, and publishing to one never affects another; an unknown table can be neither read nor published to.",
 ["histories", "crash points", "schedules", "inputs"], "for every variation of the definition, every crash step and every point at which another process registers",
 "Tests register a few fixed definitions in one process.",
 MANF, [("registration", "src/manifest/driver.rs: register_table, ensure_table_compat, init_table_head"), ("bootstrap", "src/manifest/bootstrap.rs")],
 ["manifest"],
 [H("vh_cat_ops", "1 or 2 tables (one name a prefix of or differing in case from the other), any variation on re-registration (key columns, their order, fingerprint, schema version, each retention knob), optional reopen, publishes to both", "identity, conflicts and isolation", [1,2,3]),
  H("vh_cat_crash", "second registration, stop before any step", "identity stable, registration completes", [1,2]),
  H("vh_cat_race", "two processes register one table, one set aside before any metadata step", "one identity", [1,2,3])], DISK)
PREEMPT = ["threads: two threads with sequentially consistent memory; the other thread's operation runs as a whole at any one atomic access of the first thread's, or after it (a schedule in which it would have to wait for a lock is covered by the later point at which the lock is free); weak-memory reorderings and more preemptions are outside the bound"]
prop("M06", "Commit timestamps are never repeated and never go back",
 "For any starting point, timestamps handed out are distinct and grow along every thread; advancing the clock is never lost and never undone, the next timestamp reported is the next one handed out, and the clock never skips further than advanced, also when several threads allocate, advance and read concurrently; timestamp arithmetic saturates.",
 ["inputs", "histories", "schedules"], "for every start value, sequence of calls and interleaving within the bound",
 "The one place every commit goes through has no test of its own; a lost update needs a preemption between two atomic accesses.",
 ["src/mvcc/mod.rs"], [("commit clock", "src/mvcc/mod.rs: CommitClock"), ("timestamps", "src/mvcc/mod.rs: Timestamp")],
 ["clock"],
 [H("vh_clock_seq", "4 calls of any kind, any start and advance below 2^64-64", "clock equals the model", [1,2]),
  H("vh_clock_race", "2 calls on one thread, 1 on another at any point", "distinct, monotone, nothing lost", [1,2]),
  H("vh_clock_arith", "any timestamp, any delta", "saturating arithmetic", [1]),
  H("vh_clock_race2", "2 calls on each of two threads", "distinct, monotone, nothing lost", [1,2], thorough_only=True, timeout=6000)], PREEMPT)
prop("M07", "Threads sharing the active table never lose or corrupt a write",
 "While one thread writes, deletes, seals or scans the active table, another may scan, write, seal, check conflicts or read statistics at any moment: every accepted version ends up in exactly one table as written; a scan shows only rows that were written, none newer than its snapshot, every version committed before, and exactly the same result as without the write if the write is newer than the snapshot; conflict checks never miss a committed version; nothing deadlocks or fails.",
 ["schedules", "histories", "inputs"], "for every point at which the other thread's operation runs, every kind of write and every snapshot",
 "Tests use the table from one thread; these errors need a preemption between two accesses.",
 ["src/inmem/mutable/memtable.rs", "src/inmem/mutable/metrics.rs"], [("shared table", "src/inmem/mutable/memtable.rs: DynMem"), ("slot publication", "src/inmem/mutable/memtable.rs: DynMemInner")],
 ["memrace"],
 [H("vh_race_read", "scan at any snapshot at any point of a write (2 upserts, 2 deletes, an older and a newer upsert)", "scan legal; write visible afterwards", [1,2]),
  H("vh_race_scan", "a write at any point of a scan at any snapshot", "same", [1]),
  H("vh_race_write", "a write at any point of another", "every version in exactly one place", [1]),
  H("vh_race_write_full", "the same with a table that fills up and seals itself", "same", [1,2]),
  H("vh_race_seal", "a seal at any point of a write", "same", [1]),
  H("vh_race_seal_full", "the same with a table that seals itself", "same", [1]),
  H("vh_race_seal_write", "a write at any point of a seal", "same", [1]),
  H("vh_race_conflict", "a conflict check of any key and snapshot at any point of a write", "no committed version missed, none invented", [1,2]),
  H("vh_race_stats", "statistics and bounds read at any point of a write", "those of a moment in between", [1])], PREEMPT)
prop("M08", "The active table is sealed exactly when a limit is reached",
 "Each built-in seal policy asks for a seal exactly when its limit is reached (bytes of keys plus overhead, rows, attached batches, time since the last seal), the combined policy exactly when one of its parts does, the default policy at its documented-in-code limits; the statistics they read count distinct keys, writes, replacements and attached batches since the last seal, and start over after one.",
 ["inputs", "histories"], "for every statistics value and limit, and every sequence of writes within the bound",
 "Tests evaluate a few literal values.",
 ["src/inmem/policy.rs", "src/inmem/mutable/metrics.rs", "src/inmem/mutable/memtable.rs", "src/key/heap_size.rs"], [("policies", "src/inmem/policy.rs"), ("statistics", "src/inmem/mutable/metrics.rs"), ("key sizes", "src/key/heap_size.rs")],
 ["policy", "key"],
 [H("vh_policy_each", "any statistics (entries < 2^32, key bytes < 2^62, overhead < 2^16, times < 2^40 s) and limits", "seal exactly at the limit", [1]),
  H("vh_policy_any", "a combination of three policies, any limits", "seal exactly when a part seals", [1,2]),
  H("vh_policy_default", "the default policy", "seal exactly at 64 MiB, 64 batches, 16384 rows or 30 s", [1,2]),
  H("vh_policy_stats", "3 upserts or deletes of any of 8 keys, timestamps rising or falling, then a seal", "statistics equal the model", [1]),
  H("vh_policy_bytes", "3 rows or deletes in two batches, keys of (bytes 0..=1, text 0..=2)", "distinct keys and their bytes are counted once", [1,2]),
  H("vh_key_size", "any (i64, bytes 0..=3, bool, text 0..=3) key, any u64 key", "the bytes a key counts with", [1,2])])
prop("P03", "The compaction queue runs every accepted job once, in order and within its budget",
 "A job is accepted exactly while fewer than the configured number wait; accepted jobs come out first in first out, each once, unchanged (task, expected manifest head, lease owner and time to live), at most the budget per drain, and each is run to its end; a queue without receiver reports closed. Follow-up compactions are allowed exactly while their budget lasts and the cooldown since the last one has passed.",
 ["histories", "inputs", "configurations"], "for every capacity, budget, cooldown and sequence of enqueues, drains, resets and requests within the bound",
 "Tests enqueue two jobs into a queue of one.",
 ["src/compaction/scheduler.rs", "src/compaction/driver.rs"], [("job queue", "src/compaction/scheduler.rs: CompactionScheduler"), ("cascade control", "src/compaction/driver.rs: CascadeControl")],
 ["in_compaction__scheduler"],
 [H("vh_sched_queue3", "capacity and budget 0..=3, 3 steps", "queue equals the model, jobs of 1 to 3 polls finish", [1,2,3,4]),
  H("vh_sched_queue5", "capacity and budget 0..=3, 5 steps", "same", [1,2,3,4]),
  H("vh_sched_closed", "receiver gone", "closed, not full", [1]),
  H("vh_cascade3", "budget 0..=2, 3 steps, any cooldown and pauses below 256 s (and 0.999999999 s more)", "decision equals the model", [1,2,3,4]),
  H("vh_cascade4", "the same, 4 steps", "same", [1,2,3,4], thorough_only=True, timeout=3000)], (), ["in_compaction__driver"])

prop("M09", "Pruning sealed tables never hides a visible version",
 "A snapshot read that skips sealed tables by their key and commit-time ranges skips only tables holding no version (row or delete) at or below the snapshot whose key lies in the requested range.",
 ["histories", "inputs"], "for every contents of the sealed tables, key range and snapshot within the bound",
 "The tests prune tables of rows with literal bounds; a table holding only deletes, or whose oldest version is a delete, is never among them.",
 ["src/query/scan.rs", "src/inmem/immutable/memtable.rs"],
 [("pruning by ranges", "src/query/scan.rs: prune_segments"), ("recorded ranges", "src/inmem/immutable/memtable.rs: commit_ts_bounds, min_key, max_key")],
 ["memtable"],
 [H("vh_imm_versions2", "2 writes sealed", "recorded key and commit ranges are exact", [1,2]),
  H("vh_prune2", "one sealed table of 2 writes, any bounds and snapshot", "a table with a visible version in range is kept", [1,2]),
  H("vh_prune1", "two sealed tables of 1 write each, any bounds and snapshot", "each table with a visible version in range is kept", [1,2]),
  H("vh_prune3", "one sealed table of 3 writes, any bounds and snapshot", "a table with a visible version in range is kept", [1,2], thorough_only=True, timeout=3000)],
 optional_groups=["in_query__scan"])
STANDIN = "parquet encoding is abstracted: a file holds the numbers of the record batches written to it (harness/parquet); when bytes reach the file system and what a failed write leaves is as with the real writer, which also buffers until it is closed"
prop("S01", "Reading a stored table returns the newest version at the snapshot",
 "Scanning a stored table at any snapshot yields, for each key with a row or delete at or below the snapshot, exactly the newest such version once, keys ascending (a delete wins over a row of the same time), however the file's rows and deletes are divided into batches; and flushing an in-memory table then scanning it returns what the in-memory table held.",
 ["histories", "inputs"], "for every contents in file order, every division into batches and every snapshot within the bound",
 "The repository's scan tests cannot even be built here and fix one division into batches; losing or resurrecting a key needs particular versions on either side of a batch border.",
 ["src/ondisk/scan.rs", "src/ondisk/sstable.rs"],
 [("merge of rows and deletes", "src/ondisk/scan.rs: SstableScan::poll_next"), ("batch iteration", "src/ondisk/scan.rs: DataBatchIterator, DeleteBatchIterator")],
 ["sst"],
 [H("vh_sst_big", "1100 rows and 367 deletes flushed, then scanned in batches of 1 to 1100 rows; three snapshots", "equals the model", [1,2]),
  H("vh_sst_scan20", "2 rows, no deletes, any division", "equals the model", [1,2]),
  H("vh_sst_scan21", "2 rows and 1 delete, any division", "equals the model", [1,2,3]),
  H("vh_sst_scan12", "1 row and 2 deletes, any division", "equals the model", [1,2,3]),
  H("vh_sst_scan22", "2 rows and 2 deletes, any division", "equals the model", [1,2,3]),
  H("vh_sst_scan31", "3 rows and 1 delete, any division", "equals the model", [1,2,3]),
  H("vh_sst_scan32", "3 rows and 2 deletes, any division", "equals the model", [1,2,3]),
  H("vh_sst_round2", "2 writes (nullable values) flushed, then scanned at any snapshot", "equals the model", [1,2]),
  H("vh_sst_round3", "3 writes flushed, then scanned at any snapshot", "equals the model", [1,2])], assumptions=[STANDIN])
prop("S02", "A flush writes every version of the sealed tables and describes them truthfully",
 "Flushing one or more sealed tables writes every row to the data file and every delete to the delete file exactly once, keys ascending and newest version first; the resulting table's identity, file names, row and delete counts, size, key range, commit range and log references are exact, and tables of different identity or level never share a file; a flush of nothing or a failed write yields an error, not a table.",
 ["histories", "inputs", "faults"], "for every contents of up to three sealed tables, with or without a configured key, and a disk error at any step",
 "Tests flush fixed tables in key order; a lost version or wrong range needs interleaved keys across sealed tables, deletes, or a disk error.",
 ["src/ondisk/sstable.rs", "src/inmem/immutable/memtable.rs"],
 [("staging and statistics", "src/ondisk/sstable.rs: stage_immutable, StagedTableStats"), ("ordering across tables", "src/ondisk/sstable.rs: normalize_immutable_flush_segments, sort_data_rows, sort_delete_rows"), ("file writing", "src/ondisk/sstable.rs: WriteContext")],
 ["sst"],
 [H("vh_sst_big", "1100 rows and 367 deletes", "files, statistics", [1,2]),
  H("vh_flush1", "one sealed table of 2 writes (nullable values), any keys and times", "files, statistics, names, log references", [1,2,3]),
  H("vh_flush1x3", "one sealed table of 3 writes", "files, statistics, names, log references", [1,2,3]),
  H("vh_flush2", "two sealed tables of 1 write each (nullable values)", "files, statistics, names, log references", [1,2,3]),
  H("vh_flush2n", "two sealed tables of 1 write each, no key configured", "files, statistics, names, log references", [1,2,3]),
  H("vh_flush3", "three sealed tables of 1 write each", "files, statistics, names, log references", [1,2,3]),
  H("vh_flush_names", "two tables of a row and a delete; identities and levels from the ends and middle of their ranges", "neither overwrites the other's files", [1,2]),
  H("vh_flush_fault", "one sealed table of 2 rows; any one disk step fails", "an error is reported", [1,2]),
  H("vh_flush_empty", "nothing staged", "an error, no files", [1]),
  H("vh_flush2x2", "two sealed tables of 2 writes each", "files, statistics, names, log references", [1,2,3], thorough_only=True, timeout=3000)], assumptions=[STANDIN])
prop("S03", "Compaction merges keep exactly the newest version of every key",
 "Merging any stored tables produces, for every key in the inputs, exactly its newest version (a row, or the delete that hides it), once, in outputs that are each in key order, do not overlap, respect the row cap, describe themselves truthfully and reference every log segment an input referenced - however the inputs' rows and deletes are divided into batches; a failed merge leaves none of its finished outputs behind.",
 ["histories", "inputs", "configurations"], "for every contents of up to three input tables, every division of rows and deletes into batches, chunk size and row cap within the bound",
 "Tests merge tables that fit one batch; a lost key needs a second batch, or deletes far from the rows they share a batch with.",
 ["src/ondisk/merge.rs", "src/ondisk/sstable.rs"],
 [("merge loop", "src/ondisk/merge.rs: SsTableMerger::execute_inner, SourceCursor, HeapEntry"), ("output assembly", "src/ondisk/merge.rs: OutputState"), ("output statistics", "src/ondisk/sstable.rs: stage_stream_batch")],
 ["sst"],
 [H("vh_merge_big", "1100 rows under 100 rows and 40 deletes, input batches of 100 to all rows, default chunks, three row caps", "newest version per key; caps respected", [1,2]),
  H("vh_flush2", "two sealed tables of 1 write each, through the table writer the merge shares with flushing", "files, statistics", [1,2,3]),
  H("vh_merge_a", "one table: 2 rows, 1 delete", "newest version per key; outputs exact", [1,2]),
  H("vh_merge_b", "two tables: 1 row and 1 delete each", "newest version per key; outputs exact", [1,2]),
  H("vh_merge_c", "two tables: 2 rows; 1 row and 1 delete; chunks of 1 row", "newest version per key; outputs exact", [1,2]),
  H("vh_merge_d", "two tables: 3 rows; 1 delete; at most 1 row per output", "newest version per key; outputs exact", [1,2,3]),
  H("vh_merge_e", "two tables: 1 row and 2 deletes; 1 row; chunks of 2 rows", "newest version per key; outputs exact", [1,2]),
  H("vh_merge_f", "one table: 2 rows, 2 deletes", "newest version per key; outputs exact", [1,2]),
  H("vh_merge_g", "three tables of 1 row; at most 2 rows per output", "newest version per key; outputs exact", [1,2,3]),
  H("vh_merge_cleanup", "one table of 2 rows; the merge fails after the first output", "no output files remain", [1,2]),
  H("vh_merge_h", "two tables: 2 rows and 1 delete each; chunks of 2 rows", "newest version per key; outputs exact", [1,2], thorough_only=True, timeout=6000)],
 assumptions=[STANDIN, "the stream that reads an input table pairs its data and delete batches by position (SsTableReader::into_stream, which the repository's own build omits); versions of a key have distinct commit times"], optional_groups=["in_ondisk__merge"])

prop("S04", "Stored files are written with what readers need, and only complete files are accepted",
 "Every stored file of rows or deletes is written with page statistics for every column, offset indexes, a membership filter on exactly the primary key columns, row groups of the configured number of rows (at least 1; 1048576 unless configured) and the configured compression (Zstd unless configured); a file is accepted for reading exactly when its column and offset indexes are present for every column of every row group (a file without row groups needs none).",
 ["inputs", "configurations"], "for every key choice, row group limit, compression and shape of page indexes within the bound",
 "Tests write with one or two configurations and read back rows, which come out the same whatever the indexes.",
 ["src/ondisk/sstable.rs"],
 [("how files are written", "src/ondisk/sstable.rs: writer_properties, bloom_filter_columns, SsTableConfig"), ("what is accepted", "src/ondisk/sstable.rs: validate_page_indexes")],
 ["sstfile"],
 [H("vh_file_props", "one row, one delete or none; three key choices; any row group limit; every compression setting", "the properties each file is written with", [1,2,3]),
  H("vh_file_indexes", "up to 2 row groups of up to 2 columns; either index absent, or shaped for up to 2 row groups of up to 2 columns", "acceptance", [1,2,3])], assumptions=[STANDIN])

prop("E01", "Keys are extracted exactly from rows",
 "The key extracted from any row of a batch is exactly the values of the key columns in key order, for every supported column type; it is the same whichever rows are asked for, in whatever order, from a slice or a whole batch, and regardless of the other columns; a row with a missing key value is refused, and so are rows beyond the batch and batches of another shape. A row read back from a batch holds the batch's values without the bookkeeping columns.",
 ["inputs"], "for every batch contents, key column type, composite key and row within the bound",
 "Tests extract a few literal rows.",
 ["src/extractor/mod.rs", "src/extractor/extractors.rs", "src/extractor/errors.rs"],
 [("projection", "src/extractor: projection_for_columns, projection_for_field"), ("batch checks", "src/extractor: row_from_batch, validate_schema")],
 ["extract"],
 [H("vh_project_num", "three rows of a i64, i32, u64, u32 or bool column, any two rows asked for", "value and type", [1]),
  H("vh_project_bytes", "three rows of a text or binary column of 5 types (0..=2 bytes), any two rows asked for", "value and type", [1]),
  H("vh_project_float", "f64 and f32 columns, all bit patterns", "value and type", [1], fp=True),
  H("vh_project_composite", "keys of two or three of three columns in 4 orders, any of three rows", "values and order", [1]),
  H("vh_project_null", "two nullable key columns, any nulls in one of them", "rows with a missing key value are refused", [1,2]),
  H("vh_batch_shapes", "12 shapes: other types, names, arity, order, nullability, commit column", "refused exactly when not the table's shape", [1,2]),
  H("vh_batch_row", "a row of 9 column types, nulls anywhere, bookkeeping columns between", "the row's cells", [1])])
prop("E02", "Declared primary keys resolve to the declared columns",
 "A table's primary key, declared by column names, by field markers or by schema metadata, resolves to exactly the declared columns in the declared order, whatever printable characters their names contain; declarations of unknown columns or unsupported types, several markers without an order, and tables without a key are refused. The fingerprint by which a stored table is recognised is equal for two schemas exactly when they are equal.",
 ["inputs", "configurations"], "for every way to declare a key of one or two of three columns within the bound",
 "Tests declare a few literal schemas.",
 ["src/mode/dyn_config.rs", "src/mode/mod.rs", "src/schema.rs"],
 [("key declarations", "src/mode/dyn_config.rs: DynModeConfig"), ("schema builder", "src/schema.rs: SchemaBuilder")],
 ["extract"],
 [H("vh_declare", "keys of one or two of three columns, names of 1 or 3 arbitrary printable ASCII characters, by name and through stored metadata", "resolved to the declared columns in order", [1,2]),
  H("vh_declare_table", "keys of one or two of three fixed columns", "the table is registered with, and deletes carry, exactly the key columns", [1,2]),
  H("vh_markers", "any of 8 markers or none on each of three columns, with or without a schema-level declaration", "resolved in marker order, or refused", [1,2,3,4]),
  H("vh_declare_refused", "any name or position, 4 unsupported types", "refused exactly when unknown or unsupported", [1,2]),
  H("vh_fingerprint", "any two of 72 schemas (names, types, nullability, field and schema metadata in any insertion order)", "equal fingerprints exactly for equal schemas", [1,2])])
prop("Q04", "Predicates compare by value and result rows arrive unchanged",
 "Evaluating a predicate compares stored cells and literals by their mathematical value whatever their widths (integers with floats exactly, not-a-number with no value of another type), text and bytes bytewise whatever their representation, follows three-valued logic for missing values, and the batches handed to a reader hold exactly the rows that passed, in order. Literals used as key bounds compare the same way.",
 ["inputs"], "for every pair of values of every supported type, every combination of truth values, and rows within the bound",
 "Tests compare a few literals; precision loss needs particular integers beyond 2^53.",
 ["src/query/stream/package.rs", "src/query/scan.rs"],
 [("comparison", "src/query/stream/package.rs: compare_scalar_values"), ("three-valued logic", "src/query/stream/package.rs: TriState"), ("result batches", "src/query/stream/package.rs: DynRecordBatchBuilder")],
 ["queryscan"],
 [H("vh_row_batch_big", "1024, 1025 and 1100 rows, builder sized 1, 1024 or 2000", "the batch holds the appended rows", [1]),
  H("vh_literal_int", "any integer literal of 8 widths against any integer key of 4 types", "comparison by value", [1,2]),
  H("vh_cmp_int", "any two integers of 8 widths", "by value", [1]),
  H("vh_cmp_int_float", "any 64-bit integer and any f64 whose binary exponent is below 2, 52, 63, 64 or above 65, either side", "by value; not-a-number with nothing", [1,2]),
  H("vh_cmp_int_float2", "any integer of 8 widths and any f64", "same", [1,2], thorough_only=True, timeout=3000),
  H("vh_cmp_float", "any f32 against any f64", "by value", [1], fp=True),
  H("vh_cmp_same", "text, bytes (0..=2), booleans, mixed and missing values", "bytewise; no order across kinds", [1]),
  H("vh_cmp_kinds", "text in 3 and bytes in 4 representations, 1..=2 bytes each", "by content", [1,2]),
  H("vh_cmp_float_same", "any two f32, any two f64", "by value (the sign of zero and not-a-number may follow Arrow's total order)", [1], fp=True),
  H("vh_cmp_logic", "all truth values", "and, or, not", [1]),
  H("vh_cmp_cells", "any stored cell of 12 types", "becomes the literal of that value and type", [1]),
  H("vh_row_batches", "2 rows, then 0..=1 rows", "batches hold the appended rows", [1,2])],
 optional_groups=["in_query__stream__package"])
prop("R01", "Ranged file reads return exactly the requested bytes",
 "Reading several byte ranges of a stored file returns, for each range in the order asked, exactly those bytes, whether or not the ranges overlap, touch, repeat, are empty, lie out of order or lie far apart; a cached filter is the one last stored for that file, row group and column, the cache never exceeds its limit and drops the oldest first.",
 ["inputs", "histories"], "for every file contents, set of ranges and sequence of insertions within the bound",
 "Tests read a couple of adjacent ranges.",
 ["src/ondisk/bloom.rs"],
 [("ranged reads", "src/ondisk/bloom.rs: BatchedAsyncReader::get_byte_ranges"), ("filter cache", "src/ondisk/bloom.rs: BloomFilterCache")],
 ["ranges"],
 [H("vh_ranges_far2", "a file of 65544 bytes, two ranges of 0..=2 bytes at either side of the 64 KiB coalescing distance", "exactly the bytes asked for", [1,2]),
  H("vh_ranges2", "a file of 5 arbitrary bytes, any 2 ranges, coalescing distance 0..=2", "same", [1,2]),
  H("vh_ranges3", "a file of 3 arbitrary bytes, any 3 ranges, coalescing distance 0..=2", "same", [1,2]),
  H("vh_bloom_cache", "3 insertions under 5 keys, limit 0..=2", "cache equals the model", [1,2])],
 optional_groups=["in_ondisk__bloom"])
OMITS = "the sources are not part of the repository's offline build (they depend on the git dependency `aisle`, absent here), so neither the engine nor a replay can compile them: "
na("N01", "A database recovers every acknowledged write after a crash",
 "Opening a database replays exactly the log frames not yet covered by stored tables, so every acknowledged write is readable and no aborted or unacknowledged transaction is.",
 ["crash points", "histories"], "for every history of transactions and every crash point", "Tests recover a few fixed logs.",
 ["src/db/mod.rs", "src/db/builder.rs"], [("recovery", "src/db")], OMITS + "src/db. The parts it is made of are decided by W02, W04 (log), V02 (manifest), M01 (tables), W07/W08 (floor and state).")
na("N02", "Transactions commit atomically with snapshot isolation",
 "A commit either makes all staged writes visible at one timestamp or none, and fails when a key it writes was committed after its snapshot.",
 ["schedules", "histories"], "for every interleaving of transactions", "Tests run a few fixed interleavings.",
 ["src/transaction/mod.rs"], [("commit", "src/transaction/mod.rs: Transaction::commit")], OMITS + "Transaction and its commit path. Conflict detection (M04), staged writes (Q02), timestamps (M06) and transaction frames in the log (W02, W04) are decided separately.")
na("N03", "Stored tables decode to the rows written, and filters never drop a matching row",
 "Reading a stored table returns the rows written to it; row group, page and filter pruning never drop a row that satisfies the predicate.",
 ["inputs"], "for every table contents and predicate", "Tests store a few fixed tables.",
 ["src/ondisk/sstable.rs"], [("open_parquet_stream", "src/ondisk/sstable.rs")], OMITS + "open_parquet_stream and the predicate split; and the parquet and compression encoders are beyond symbolic execution at useful sizes (S01-S03 abstract them to what they must provide).")
na("N04", "Background compaction keeps running and never blocks writers for ever",
 "The compaction worker plans, runs and publishes compactions until shut down, backing off on conflicts, and cleans up the outputs of failed attempts.",
 ["schedules", "faults"], "for every schedule and fault", "Tests drive one round.",
 ["src/compaction/driver.rs"], [("worker loop", "src/compaction/driver.rs: CompactionDriver")], OMITS + "CompactionDriver. Its planner (P01), outcome (P02), queue and cascade control (P03), merge (S03) and publication (V02, V03) are decided separately.")
