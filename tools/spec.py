"""Source of properties.jsonl and MANIFEST.json. Run: python tools/mkspec.py"""

A = 'arroba/'

PROPS = [
dict(
  id='P01', title='The repo tree is a canonical function of its contents',
  statement="The root CID and the set of node blocks of a repo's Merkle search tree depend only on the key-to-CID entries it holds, never on the order or history of adds, updates, deletes, saves and reloads that led there, including through the empty tree. They are exactly what the ATProto MST spec defines for those entries: each key on the layer given by the leading zero bit pairs of its SHA-256, sorted, prefix-compressed, with no empty or adjacent subtrees, encoded as DAG-CBOR.",
  over=['inputs', 'histories'],
  text='every set of valid keys (any mix of layers), every sequence of adds/updates/deletes that reaches it, with or without persisting and reloading in between',
  why='The tests pin a handful of fixed key sets and one random sequence; they never compare histories that empty the tree, skip layers, or reload half way against an independent construction.',
  files=['arroba/mst.py'],
  mech=[('MST.add/delete/update, split_around, append_merge, trim_top', 'arroba/mst.py'), ('serialize_node_data, leading_zeros_on_hash', 'arroba/mst.py')],
  technique='model-based PBT: operation histories vs an independent reference MST builder'),
dict(
  id='P02', title='The tree behaves as an immutable ordered map',
  statement="A tree answers get, full and bounded listing, prefix listing, iteration from a key, leaf count and path lookups exactly as a sorted map of its entries would. Adding an existing key, updating or deleting a missing key, and syntactically invalid keys are rejected with the documented error, and no operation, successful or not, changes the tree it was called on or any earlier tree.",
  over=['inputs', 'histories'],
  text='every operation history over valid and invalid keys, with every version of the tree kept and queried again later',
  why='Tests check a few lookups on freshly built trees; immutability of older versions and range queries at arbitrary bounds are not sampled.',
  files=['arroba/mst.py'],
  mech=[('new_tree copy-on-write', 'arroba/mst.py'), ('find_gt_or_equal_leaf_index, walk_leaves_from', 'arroba/mst.py'), ('ensure_valid_key', 'arroba/mst.py')],
  technique='model-based PBT: every version of the tree vs a sorted dict'),
dict(
  id='P03', title='Saved trees reload completely and only new blocks are written',
  statement="The blocks a tree reports as not yet stored, together with those already stored, are sufficient to reload the identical tree from its root CID alone, and saving after every step never leaves a reachable node missing. Each reported block is reachable in the tree and is keyed by the hash of its own bytes; once saved, a tree reports nothing unstored, and loading all blocks from the root yields exactly the reachable node blocks and record blocks.",
  over=['histories', 'inputs'],
  text='every history of edits interleaved with saves and reloads, on both storage backends',
  why='Tests save and reload one tree once.',
  files=['arroba/mst.py', 'arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('get_unstored_blocks', 'arroba/mst.py'), ('load_all', 'arroba/mst.py'), ('read_many_raw', 'arroba/datastore_storage.py')],
  technique='model-based PBT with save/reload, reference block set as oracle'),
dict(
  id='P04', title='Tree diffs are exact',
  statement="Diffing two trees reports exactly the keys added, updated and deleted between them with their CIDs, and applying the reported changes to the old contents gives the new contents. Its new and removed CIDs never omit a node that is only in the new (respectively old) tree and never name a node that both trees share, whichever of the trees was built in memory or freshly loaded from storage. Adding up the diffs of successive versions gives the diff between the first and the last.",
  over=['inputs', 'histories'],
  text='every ordered pair of trees, of any heights, built in memory or lazily loaded',
  why='Tests diff a fixed random tree against itself with a batch of edits, always built in memory with the same height.',
  files=['arroba/diff.py', 'arroba/mst.py'],
  mech=[('mst_diff two-walker merge', 'arroba/diff.py'), ('Walker.layer/step_into/step_over', 'arroba/mst.py')],
  technique='PBT: diff vs set difference of reference trees'),
dict(
  id='P05', title='Commits record exactly the requested state, signed and chained',
  statement="After every successful commit the repo's contents equal the previous contents with the requested writes applied in order, on the live object and on a fresh load. The head commit names the repo's DID, version 3, a data root equal to the canonical tree of those contents, the previous head as prev, and a rev that encodes its own sequence number and is greater than every earlier rev this server gave that repo, under a low-S signature that verifies with the repo's signing key over the unsigned commit.",
  over=['histories', 'inputs'],
  text='every history of commits with one to many creates, updates and deletes, no-op updates and empty commits, over several repos sharing one storage, on both storage backends',
  why='Tests apply a few single-write commits and check get_record; none compares a whole history to a model or verifies the chain, rev order and signature together.',
  files=['arroba/storage.py', 'arroba/repo.py', 'arroba/util.py', 'arroba/datastore_storage.py'],
  mech=[('Storage.commit/_commit', 'arroba/storage.py'), ('util.sign', 'arroba/util.py'), ('Repo.load/create', 'arroba/repo.py')],
  technique='stateful model-based PBT on both storages (Datastore through an in-process fake backend)'),
dict(
  id='P06', title='A rejected commit changes nothing',
  statement="When a commit is rejected - a create of an existing path, an update or delete of a missing one, an invalid path, too many operations, an oversized record, or a record that fails validation, at any position in the batch - the repo's contents, head and stored state are unchanged both on the caller's repo object and on a fresh load. Its sequence number is reported lost exactly once through the repo's callback, nothing else is reported, and a following valid commit behaves as if the rejected one had never been attempted. A sequence number that a stored commit uses is never reported lost, even when the callback fails.",
  over=['histories', 'inputs'],
  text='every history in which rejected batches, bad at any position, are interleaved with valid commits, on both storage backends',
  why='Tests submit one bad single-write commit and check the exception; partial effects of multi-write batches and the commit after are not examined.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('Storage._commit builds everything before storing', 'arroba/storage.py'), ('lost_seq callback', 'arroba/storage.py'), ('transaction in DatastoreStorage._commit', 'arroba/datastore_storage.py')],
  technique='stateful model-based PBT with injected invalid writes'),
dict(
  id='P07', title='Datastore commits are atomic under backend failures and crashes',
  statement="If any backend call of a commit fails, is retried, or is the last thing the process ever does, then afterwards the stored repo is either entirely at its previous head or entirely at the new one, with every block reachable from that head readable, and a commit that returned success is never lost. The event log shows the new commit exactly if it took effect, an attempt that took no effect leaves the caller's repo object at its old head, reports the sequence number it had allocated lost, and can simply be repeated, and every head ever committed remains fully readable.",
  over=['crash_points', 'fault_sequences', 'histories'],
  text='every backend call of every operation in a generated history as the failing or crashing one, with transient and permanent errors and interruptions',
  why='The tests run on an emulator that never fails; no test injects a failing or aborted backend call, and in this environment the Datastore tests do not run at all.',
  files=['arroba/datastore_storage.py', 'arroba/storage.py'],
  mech=[('DatastoreStorage._commit transaction with retries', 'arroba/datastore_storage.py'), ('write_blocks before store_repo', 'arroba/datastore_storage.py')],
  level='fault_enumeration',
  technique='fault-injection PBT over a fake Datastore backend: every RPC index of generated histories'),
dict(
  id='P08', title='Concurrent commits to a repo never lose an update',
  statement="When several writers commit to the same repo concurrently through the Datastore backend, every commit that reports success is reflected in the final contents, the commits reachable from the final head form a single prev chain that contains each of them exactly once, and the final state equals some serial order of the successful commits. A writer that holds an out-of-date repo object commits on top of the latest stored head, not on its own copy.",
  over=['schedules', 'histories'],
  text='every choice of backend call at which another writer is scheduled, over generated sets of writes',
  why='No test runs two commits concurrently.',
  files=['arroba/datastore_storage.py', 'arroba/storage.py'],
  mech=[('optimistic transaction in DatastoreStorage._commit', 'arroba/datastore_storage.py'), ('reload of the stored repo inside the transaction', 'arroba/storage.py')],
  technique='schedule-exploring PBT: interleaved writers at generated backend calls, serialisability oracle'),
dict(
  id='P09', title='Inactive accounts cannot be written and status changes are announced',
  statement="While a repo is deactivated or tombstoned, every attempt to commit to it - through the object that changed it, another loaded copy, or one loaded earlier - raises the inactive-repo error and changes nothing, and repo reads and writes through the API are refused as deactivated. Deactivating and reactivating persist and each emit exactly one account event with the right active flag and status at a fresh sequence number; tombstoning emits one tombstone event and cannot be undone by reactivation.",
  over=['histories'],
  text='every history of deactivate, reactivate, tombstone, commits and reloads through several repo handles, on both storage backends',
  why='Tests do one transition and one write with the same object.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/server.py', 'arroba/xrpc_sync.py'],
  mech=[('deactivate_repo/activate_repo/tombstone_repo', 'arroba/storage.py'), ('status check in _commit', 'arroba/storage.py'), ('server.load_repo', 'arroba/server.py')],
  technique='stateful model-based PBT over the account lifecycle'),
dict(
  id='P10', title='Blocks are content-addressed and written once',
  statement="Any block read back from storage, singly, in batches or raw, has exactly the bytes that were written and hashes to the CID it was requested by; requests for missing CIDs report absence without disturbing the others. Writing a block that already exists never changes its stored bytes, sequence number or owning repo, regardless of which call writes it or which repo it belongs to.",
  over=['inputs', 'histories'],
  text='every history of single and batch writes with duplicates within and across repos and sequence numbers, on both storage backends',
  why='Tests write each block once and read it once.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('Block', 'arroba/storage.py'), ('MemoryStorage.write/write_blocks', 'arroba/storage.py'), ('AtpBlock.create/from_block/to_block, write_blocks', 'arroba/datastore_storage.py')],
  technique='stateful model-based PBT of the block store on both storages'),
dict(
  id='P11', title='The stored event log replays every event once, in order',
  statement="Reading events from any sequence number yields every commit and account, identity, sync and tombstone event stored at or after it, exactly once, in ascending sequence order, optionally restricted to one repo, and nothing else. Each commit event carries its own operations with CIDs and previous CIDs, its previous commit, and all of its new blocks plus every record its operations name and its tree root, even when those blocks were first written earlier or by another repo.",
  over=['histories', 'inputs'],
  text='every history over several repos with shared records, recurring tree nodes, rejected commits, lifecycle events and imported repos, from every starting point, on both storage backends',
  why='Tests read one short log from the beginning or one offset.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('read_events_by_seq', 'arroba/storage.py'), ('read_blocks_by_seq', 'arroba/datastore_storage.py')],
  technique='stateful model-based PBT vs a log kept by the harness'),
dict(
  id='P12', title='Sequence numbers are unique, increasing and never reused',
  statement="Every allocation of a sequence number for a stream, from any allocator backend and from any number of processes, returns a positive number that no other allocation ever returns and that is larger than all allocations that completed before it began; different streams do not affect each other. This survives loss of the memcache contents, process restarts, and concurrent allocation, and the reported last number equals the highest allocated one whenever it is known.",
  over=['schedules', 'histories', 'fault_sequences'],
  text='every history of allocations by several simulated processes, interleaved at every memcache and backend call, with cache flushes and process restarts, for small and large batch sizes',
  why='Tests allocate a few numbers from one process; races, evictions and restarts are not exercised.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('MemorySequences', 'arroba/storage.py'), ('DatastoreSequences.allocate', 'arroba/datastore_storage.py'), ('MemcacheSequences.allocate/alloc_batch', 'arroba/datastore_storage.py')],
  technique='schedule-exploring PBT with controlled interleavings and cache loss'),
dict(
  id='P13', title='Firehose subscribers get every event once, in order',
  statement="A subscriber with a cursor receives every stored event with sequence number at or after the cursor, and one without a cursor every event emitted after it connected, each exactly once, in strictly ascending sequence order and with identical content for all subscribers, however its reads interleave with new events, with the collector and with other subscribers, and whether events come from storage, the rollback window or live. A cursor in the future gets only a FutureCursor error, one older than the rollback window gets an OutdatedCursor notice first and then everything still inside the window.",
  over=['schedules', 'histories', 'configurations'],
  text='every interleaving of commits, collector polls, subscriptions at any cursor and subscriber reads, for small and large preload and rollback windows, including collector restarts and errors',
  why='Tests drive one or two subscribers through one fixed schedule with the default windows.',
  files=['arroba/firehose.py', 'arroba/xrpc_sync.py'],
  mech=[('subscribe hand-off from storage to rollback to live', 'arroba/firehose.py'), ('Collector.run/_collect', 'arroba/firehose.py')],
  technique='schedule-controlling stateful PBT of the real collector and subscriber generators'),
dict(
  id='P14', title='Commit events let a stateless consumer verify the change',
  statement="From a commit event alone, its block archive contains the signed commit it names as root, every record it creates or updates, and enough tree nodes that undoing its operations on the new tree gives exactly the previous tree root it advertises. Its repo, rev, seq, operations with actions, paths, CIDs and previous CIDs, and previous data root all match the commit, and it is the same whether served live, from the preloaded window or from storage.",
  over=['inputs', 'histories'],
  text='every commit of every generated history: single and multiple operations, keys of all layers, first and last keys, trees that grow, shrink or become empty',
  why='Tests compare block lists for a few hand-written trees; only a general inversion check covers arbitrary shapes.',
  files=['arroba/firehose.py', 'arroba/mst.py', 'arroba/storage.py'],
  mech=[('process_event', 'arroba/firehose.py'), ('add_covering_proofs', 'arroba/mst.py')],
  technique='PBT: operation inversion by an independent partial-tree implementation'),
dict(
  id='P15', title='A missing sequence number delays but never blocks or reorders',
  statement="When a sequence number below a stored event is missing and not known to be lost, the collector holds back that event and all later ones while it may still arrive - within the configured delay since the last event and the configured window of the newest number - and delivers the late event in order if it does. Numbers reported lost are skipped at once, and after the delay or beyond the window delivery continues without the missing number; a sequence number is never delivered after a higher one.",
  over=['schedules', 'histories', 'configurations'],
  text='every pattern of missing, late and lost sequence numbers, arrival order and clock advance, for generated delay and window settings',
  why='Tests cover one skipped number with one fixed timing.',
  files=['arroba/firehose.py'],
  mech=[('gap handling in Collector._collect', 'arroba/firehose.py'), ('mark_seq_lost', 'arroba/firehose.py')],
  technique='schedule-controlling stateful PBT with a virtual clock vs a reference collector'),
dict(
  id='P16', title='Repo exports are complete and import back faithfully',
  statement="An exported repo archive has the current head commit as its root and contains that commit, every tree node and every record reachable from it, each with correct bytes, and nothing outside the repo. Importing it into an empty server yields a deactivated repo with the same DID, contents and tree root that becomes writable on activation; an archive whose head signature, DID, root or block bytes were altered, or for a DID that already exists, is rejected and leaves no repo behind. Export since a revision contains at least the head and every reachable block first written at or after that revision's sequence number.",
  over=['inputs', 'histories'],
  text='every repo produced by a generated history, every since revision, and every single corruption of the archive from a generated family',
  why='Tests export one small repo and import one fixed archive.',
  files=['arroba/xrpc_sync.py', 'arroba/xrpc_repo.py', 'arroba/mst.py', 'arroba/datastore_storage.py'],
  mech=[('get_repo, MST.load_all', 'arroba/xrpc_sync.py'), ('import_repo', 'arroba/xrpc_repo.py')],
  technique='PBT: export/import round trip, reachability oracle and tampering'),
dict(
  id='P17', title='Record proofs and block fetches are self-contained and correct',
  statement="A record proof for an existing record is an archive rooted at the signed head commit that contains the record and every tree node on the path from the head's root to it, so a client can verify membership from the archive alone; a missing record is reported as not found. Fetching blocks returns exactly the requested blocks in order or an error naming a missing one, and the latest-commit and head endpoints agree with the stored head.",
  over=['inputs', 'histories'],
  text='every record path, present or absent, in every repo produced by generated histories, and every list of present, missing and malformed CIDs',
  why='Tests fetch a proof in a repo with a couple of records where the root node covers everything.',
  files=['arroba/xrpc_sync.py', 'arroba/mst.py'],
  mech=[('get_record', 'arroba/xrpc_sync.py'), ('get_blocks, get_head, get_latest_commit', 'arroba/xrpc_sync.py')],
  technique='PBT: independent proof verification from the archive alone'),
dict(
  id='P18', title='The record API reads back what was written',
  statement="Through the record API, creating, putting and deleting records and then getting or listing them agrees with a map from path to record: values and CIDs round-trip, URIs name the right DID, collection and key, missing records are reported as not found, and deleting a missing record is a no-op. Listing returns only the requested collection in key order, and following cursors to the end visits every record exactly once whatever the limit; when a list of supported collections is configured, no other collection can be written or read.",
  over=['histories', 'inputs', 'configurations'],
  text='every history of API calls over several repos, collections that are prefixes of each other, arbitrary JSON records, and all page sizes',
  why='Tests call each method once or twice with fixed records.',
  files=['arroba/xrpc_repo.py', 'arroba/server.py'],
  mech=[('create_record, put_record, get_record, delete_record, list_records, describe_repo', 'arroba/xrpc_repo.py')],
  technique='stateful model-based PBT through the XRPC server'),
dict(
  id='P19', title='Privileged API calls require the token',
  statement="Every record write, blob upload, repo import and session call made without the configured bearer token, with a wrong or altered one, or with no token configured, is refused and changes no stored state; with the right token it is served. createSession hands out the token only for the configured password. When full repo export is disabled, repos older than twelve hours are exported only for the configured export token, and younger ones remain exportable.",
  over=['inputs', 'configurations'],
  text='every privileged method, authorization header from a grammar around the right one, token configuration and repo age',
  why='Tests check one missing header per method.',
  files=['arroba/server.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_server.py', 'arroba/xrpc_sync.py'],
  mech=[('server.auth', 'arroba/server.py'), ('GETREPO_TOKEN / DISABLE_GETREPO', 'arroba/xrpc_sync.py')],
  technique='PBT over headers and configurations through the Flask/XRPC stack, state-unchanged oracle'),
dict(
  id='P20', title='Timestamp identifiers and AT URIs round-trip and keep order',
  statement="Timestamp identifiers are 13 characters of the sortable base32 alphabet, convert back to exactly the integer or microsecond instant they were made from whatever the clock id or timezone, and sort as text in the order of those numbers; ones of the wrong length or with foreign characters in the number part are rejected. Successive generated identifiers strictly increase even when the clock stands still or goes backwards, and AT URIs built from a DID, collection and key parse back to the same parts.",
  over=['inputs', 'histories', 'schedules'],
  text='every integer and microsecond instant in the representable range, clock id and timezone; every sequence of clock readings, and calls from several threads; every valid DID, collection and key',
  why='Tests check a few literal values.',
  files=['arroba/util.py'],
  mech=[('s32encode/s32decode, int_to_tid, tid_to_int, datetime_to_tid, tid_to_datetime', 'arroba/util.py'), ('next_tid', 'arroba/util.py'), ('at_uri, parse_at_uri', 'arroba/util.py')],
  technique='round-trip, order-preservation and schedule PBT'),
dict(
  id='P21', title='Signatures verify exactly what was signed',
  statement="A signed object verifies with the signer's public key and with no other key, and stops verifying when any field, or any byte or the length of the signature, is altered; the signature covers the DAG-CBOR encoding of the object without it and is always a 64-byte low-S value. Service tokens decode and verify with the signing key, carry the requested issuer, audience, expiry and extra claims, and are also low-S.",
  over=['inputs'],
  text='every DAG-CBOR object, key pair, and single alteration of object or signature; every combination of token claims',
  why='Tests sign a few fixed objects; low-S fails for half of all signatures at random, so one sample cannot settle it.',
  files=['arroba/util.py'],
  mech=[('sign, apply_low_s_mitigation, verify_sig, service_jwt', 'arroba/util.py')],
  technique='PBT: round trip plus mutation, with independent ECDSA verification'),
dict(
  id='P22', title='PLC operations form a valid, verifiable chain',
  statement="Every operation sent to the PLC directory - create, update, key rotation, rollback - is accepted by a directory that enforces the spec: the DID is derived from the hash of the signed genesis operation, later operations name the previous one, and each is signed by a rotation key that was current before it. The resulting DID document carries exactly the requested handle first, other aliases, signing key and service URL, updates keep what they do not change (other than the service URL, which defaults to this server's), rollback restores the earlier state, did:key encodings round-trip, and an operation that is refused or that the directory fails raises and leaves the directory as it was.",
  over=['histories', 'inputs'],
  text='every history of creates, updates with any subset of fields, rotations, rollbacks of any depth and failed requests against a model directory; every key on both curves, and bad ones',
  why='Tests compare requests with canned JSON for one create, one update and one rollback.',
  files=['arroba/did.py'],
  mech=[('write_plc, write_plc_operation, create_plc, update_plc, rollback_plc', 'arroba/did.py'), ('encode_did_key, decode_did_key, plc_operation_to_did_doc', 'arroba/did.py')],
  technique='stateful PBT against a model PLC directory that validates every operation'),
dict(
  id='P23', title='Identities resolve to the right place and documents are read right',
  statement="Resolving a did:web or did:plc fetches exactly the URL its specification defines, including paths and ports, and returns the fetched document for that DID only; anything else is rejected without a request. Handles resolve to the DID published in DNS, else to the one served over HTTPS, else to nothing, invalid handles are rejected without any lookup, and the handle and signing key are read from the right entries of a DID document.",
  over=['inputs', 'histories', 'configurations'],
  text='every syntactically valid and invalid identifier from a grammar, every combination of DNS and HTTPS outcomes, every sequence of repeated lookups, every DID document shape',
  why='Tests check a few literal identifiers.',
  files=['arroba/did.py'],
  mech=[('resolve, resolve_plc, resolve_web, resolve_handle', 'arroba/did.py'), ('get_handle, get_signing_key', 'arroba/did.py')],
  technique='PBT with recording HTTP/DNS stand-ins vs a reference mapping'),
dict(
  id='P24', title='A lease has at most one holder at a time',
  statement="At any moment at most one process holds an unexpired lease for a key: an acquire succeeds only when no unexpired holder exists, otherwise it retries the configured number of times, at least the initial delay apart, and then fails, and a holder whose lease has expired never releases the one of its successor. A released or expired lease can be acquired again, leases on different keys do not interact, and leaving the lease's scope releases it also on error.",
  over=['schedules', 'histories', 'configurations'],
  text='every interleaving of acquire, release and clock advance by several holders over several keys, for whole-second and fractional expirations of up to 30 days and any retry settings',
  why='Tests use one holder and a mocked sleep.',
  files=['arroba/memcache.py'],
  mech=[('Lease.acquire/release', 'arroba/memcache.py')],
  technique='stateful PBT with a virtual-time memcache vs a reference lock'),
dict(
  id='P25', title='Remote blobs describe the content last fetched and obey limits',
  statement="A blob fetched from a URL records the CID, size and content type of the bytes served, is shared by every repo that references it, and is refetched only if it is of a refetchable type and its last fetch is older than the configured age. Blobs over the size, type or duration limits are refused, unreachable ones are marked inactive only on a conclusive failure or when they were never fetched, inactive blobs are never served, and a repo's blob listing pages through exactly the CIDs of its blobs.",
  over=['histories', 'inputs', 'configurations'],
  text='every history of references from several repos, server responses, redirect requests and clock advances over several URLs, including very long ones',
  why='These tests need the emulator and do not run here; they check single calls with canned responses.',
  files=['arroba/datastore_storage.py', 'arroba/xrpc_sync.py'],
  mech=[('AtpRemoteBlob.get_or_create, maybe_fetch, validate', 'arroba/datastore_storage.py'), ('get_blob, list_blobs', 'arroba/xrpc_sync.py')],
  technique='stateful model-based PBT with a scripted HTTP server stand-in and a virtual clock'),
dict(
  id='P26', title='Repos are found and listed consistently, with keys protected',
  statement="A stored repo is found by its DID, by its handle and by any AT URI naming it, with the same keys, handle, status and head it was stored with, and lookups of anything else report not found. Listing repos pages through every repo, including inactive ones, exactly once in DID order with its current head, its head's rev and its status, and in the Datastore backend private keys are stored only encrypted. An imported repo gets keys of its own.",
  over=['histories', 'inputs'],
  text='every set of repos with arbitrary DIDs, handles, statuses and histories, and all page sizes, on both storage backends',
  why='Tests list two or three repos with one limit.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py', 'arroba/server.py', 'arroba/xrpc_sync.py'],
  mech=[('create_repo/load_repo/load_repos/store_repo', 'arroba/datastore_storage.py'), ('list_repos', 'arroba/xrpc_sync.py'), ('AtpRepo.encrypted_signing_key', 'arroba/datastore_storage.py')],
  technique='model-based PBT on both storages, plus a raw scan of the fake backend for key material'),
dict(
  id='P27', title='Events on the wire are decodable and well-formed for any record',
  statement="Whatever valid records a repo contains - any nesting, any field names, any $type, including ones that imitate commits or stream events - committing them, replaying the event log and serving the firehose, export and record APIs keep working for that repo and every other, and no record is ever mistaken for a commit or a stream event. Every emitted event and archive can be decoded, and each block in it hashes to its CID.",
  over=['inputs', 'histories'],
  text='every record from a grammar of DAG-CBOR maps that includes shapes imitating internal block kinds, interleaved with ordinary writes and lifecycle events in several repos',
  why='Tests only store tiny benign records.',
  files=['arroba/storage.py', 'arroba/firehose.py', 'arroba/xrpc_sync.py', 'arroba/xrpc_repo.py'],
  mech=[('classification of blocks in read_events_by_seq', 'arroba/storage.py'), ('process_event', 'arroba/firehose.py')],
  technique='grammar-based fuzzing of record contents with whole-system invariants'),
dict(
  id='P28', title='In-memory and Datastore storage behave identically',
  statement="Any history of repo creation, commits, rejected commits, lifecycle changes, reloads, block writes and event-log reads gives the same visible results on the in-memory and Datastore backends: the same contents, heads up to signature, sequence numbers, statuses, errors and events. Reads that walk the log in many batches return the same blocks as one pass.",
  over=['histories', 'inputs'],
  text='every generated history, executed step by step on both backends',
  why='The two backends have separate tests of separate examples, and the Datastore ones do not run here.',
  files=['arroba/storage.py', 'arroba/datastore_storage.py'],
  mech=[('MemoryStorage', 'arroba/storage.py'), ('DatastoreStorage', 'arroba/datastore_storage.py')],
  technique='differential stateful PBT'),
dict(
  id='P29', title='Configuration variables have the documented effect',
  statement="Whatever documented values the environment variables have when a server process starts, or left unset for the documented defaults, the process behaves accordingly: which cursors are outdated and what is preloaded, how often the firehose reads, how far behind and how long it waits for a missing sequence number, the size limit, age and types for remote blobs, how far the stored sequence is kept ahead of memcache and in which steps, which collections the record API serves, whether and to whom old repos are exported, whether writes are available at all, and which PLC directory and PDS host are named.",
  over=['configurations', 'inputs', 'histories'],
  text='every combination of set and unset variables with boundary, fractional and large values, each in its own fresh process',
  why="Configuration is read once when a process starts, so the tests, one process with one environment, only ever see the defaults and patched constants.",
  files=['arroba/firehose.py', 'arroba/datastore_storage.py', 'arroba/util.py', 'arroba/xrpc_repo.py', 'arroba/xrpc_sync.py', 'arroba/server.py', 'arroba/did.py'],
  mech=[('ROLLBACK_WINDOW, PRELOAD_WINDOW, SUBSCRIBE_REPOS_*', 'arroba/firehose.py'), ('BLOB_*, MEMCACHE_SEQUENCE_*', 'arroba/datastore_storage.py'), ('DISABLE_GETREPO, GETREPO_TOKEN', 'arroba/util.py'), ('SUPPORTED_COLLECTIONS', 'arroba/xrpc_repo.py')],
  technique='PBT over configurations: behavioural probes in a fresh process per case vs the documented meaning'),
]
