#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM, ST, BE, IK = "omemo/session_manager.py", "omemo/storage.py", "omemo/backend.py", "omemo/identity_key_pair.py"


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, observe, state=()):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files, "mechanism": m(*mechanism),
            "state": [{"name": n, "meaning": mm, "where": w} for n, mm, w in state],
            "observe_at": observe, "hook_needed": None
        }
    })


prop("C01", "Content is only ever encrypted for trusted identity keys",
     "A message is only encrypted for devices whose identity key the application's trust evaluation reports as trusted at the time of encryption; nothing is encrypted for distrusted or undecided keys. If any addressed device is undecided, the application is asked exactly once per encryption, about exactly the undecided devices of that encryption and with the caller's identifier passed on unaltered, and the decisions it makes then (including changed decisions about other keys) take effect in that same encryption. If a device is still undecided afterwards, if the decision fails, or if a trust level is unknown, the encryption fails with the respective error, yields no message and leaves no session behind.",
     ["inputs", "histories", "configurations"],
     "all combinations of devices, backends, trust levels, existing sessions, decisions made (or refused) by the application during the call",
     "The two tests run one happy-path conversation in which the application trusts everything; trust levels, undecided devices and failing decisions never vary.",
     [SM], [("trust filtering in encrypt", SM), ("trust decision callback", SM), ("trust storage", SM)],
     ["messages returned by encrypt", "calls of the trust decision callback", "sessions persisted by the backend"])

prop("C02", "Encryption reaches exactly the eligible devices, once each",
     "Every active device of every recipient and every other device of the own account that is trusted and reachable is addressed exactly once, via the first backend of the priority order (or of the order given at creation) it is active for, together with a key exchange if and only if the session still needs one, and can decrypt the content to exactly the plaintext given for that backend; the sending device is never addressed. Each eligible device that can't be reached is reported with its error without affecting the others, and recipients left without a single reachable device are reported by name in one error that yields no message. A priority order naming a backend that is not loaded is rejected.",
     ["inputs", "configurations", "histories"],
     "all recipient sets, priority orders, device lists, bundle availabilities and session states",
     "Existing tests use one recipient with fixed devices and no priority order; partial failures never happen in them.",
     [SM], [("recipient selection, priority order, per-device error collection in encrypt", SM)],
     ["return value and exceptions of encrypt", "decryption by the addressed devices"])

prop("C03", "Sessions are only built with the identity key on record",
     "Whenever a session is built - while sending, while receiving, or while replacing a session - it is built with the identity key that is on record for that very device, so that content can't flow to or from a key that was never subject to the trust decision. A bundle or an incoming key exchange carrying any other identity key is refused with an error concerning only that device.",
     ["inputs", "histories"],
     "all published bundles and incoming key exchanges, including ones whose identity key changed after it was first seen or differs between backends",
     "No test publishes a bundle or sends a key exchange with a deviating identity key.",
     [SM], [("identity key comparison before active session building in encrypt and replace_sessions", SM), ("identity key comparison before passive session building in decrypt", SM)],
     ["session building calls at the backend boundary", "encryption errors", "exceptions of decrypt"])

prop("C04", "Decryption is gated and attributed correctly",
     "A received message is decrypted if and only if it is addressed to this device, its backend is loaded, the claimed sending device is known (if necessary after one refresh of the sender's device list), its identity key is not distrusted and matches any key exchange, and the cryptography succeeds; undecided senders are accepted without asking for a decision. On success the exact plaintext, the transported key and the current information about the sending device are returned. Each way of refusing a message is reported by its own documented exception.",
     ["inputs", "histories", "configurations"],
     "all messages, genuine or altered in any single aspect, in all states of device lists, trust and sessions",
     "Tests only decrypt genuine messages from known devices.",
     [SM], [("checks at the start of decrypt", SM), ("refresh of the device list for unknown senders", SM)],
     ["return value and exceptions of decrypt"])

prop("C05", "Messages are delivered end-to-end in any order, over restarts",
     "Between devices whose session initiations don't cross, every message that was encrypted for a device decrypts there exactly once to the sent plaintext, in whatever order messages arrive, whichever other messages are lost, and however often either side restarts in between; a second delivery of the same message is refused without any damage. This holds across several backends in parallel and includes key exchanges repeated until the session is confirmed.",
     ["schedules", "histories", "configurations"],
     "all delivery orders (within the configured skipped key limits), losses, duplications and restarts of all participants",
     "The only conversation in the tests delivers in order, without loss, duplication or restarts.",
     [SM, BE], [("session persistence in encrypt and decrypt", SM), ("re-use of a session built from the same key exchange", SM)],
     ["plaintexts returned by decrypt for every message returned by encrypt"])

prop("C06", "A failed decryption leaves no trace",
     "When decryption of a message fails for any reason, sessions, one-time pre keys and the published bundle are exactly as before and nothing is sent, so that a genuine message - the same one, or any other - can still be decrypted afterwards. Arbitrary forged messages can therefore never disturb an existing session or use up key material.",
     ["inputs", "fault_sequences", "histories"],
     "all forged, altered, repeated and undecryptable messages, and failures of the storage at any operation up to the point where the session is persisted",
     "No test feeds a message that fails to decrypt.",
     [SM], [("session is persisted after content decryption only", SM)],
     ["backend state before and after a failed decrypt", "later decryption of genuine messages"])

prop("C07", "No message key is ever used twice",
     "No two encryptions that leave the library - as returned messages or as automatically sent ones, whether or not sending succeeded - use the same key of the same session, and no two messages with content share the key of the content, over any history of encryptions, failed sends, storage failures, crashes and restarts. An encryption that is refused because of its recipients or their trust leaves all sessions as they were.",
     ["histories", "crash_points", "fault_sequences"],
     "all histories of sending, failing and restarting, with crashes at every storage and network operation",
     "Tests never fail a send, never crash and never compare ratchet positions.",
     [SM], [("sessions are persisted before encrypt returns", SM), ("session is persisted before an empty message is sent", SM)],
     ["session and ratchet position of every key material that leaves the library"])

prop("C08", "One-time pre keys are used once, kept during sync, and refilled",
     "After an accepted key exchange the one-time pre key it used is no longer part of the published bundle, and outside of history synchronization it can't be used again; during history synchronization it is kept for further key exchanges and discarded when the synchronization ends. The published bundle always offers more one-time pre keys than the refill threshold and at most 100, is refilled to exactly 100 when the threshold is reached (with a threshold raised by a restart: at the next use), never drops unused ones, and always equals the local state. Refill thresholds outside of 25 to 99 are rejected.",
     ["histories", "configurations"],
     "all sequences of key exchanges in and out of history synchronization, all thresholds",
     "Tests process a single key exchange with the default threshold and don't look at the bundle.",
     [SM], [("pre key hiding, deletion and refill in decrypt", SM), ("deletion of hidden pre keys in after_history_sync", SM)],
     ["published bundles", "acceptance of further key exchanges using the same pre key"])

prop("C09", "Automatic responses are sent exactly when due",
     "Outside of history synchronization, decrypting a message that carries a key exchange, or that is received as the 54th or later message of a chain without a response, sends exactly one empty message to exactly the sending device; no other decryption sends anything. The empty message carries no content, belongs to the persisted session and is decryptable by that device, which completes the key exchange.",
     ["histories", "inputs"],
     "all message histories, with chains around the staleness limit",
     "Tests never inspect automatic messages nor receive more than a handful of messages.",
     [SM], [("empty message sending at the end of decrypt", SM)],
     ["messages passed to the sending hook"])

prop("C10", "History synchronization defers and batches automatic responses",
     "During history synchronization (which every start begins with) nothing is sent automatically; when it ends, exactly one empty message is sent per session that is due one and still exists, no matter how many messages asked for it. What is due survives restarts, failures to send one message neither prevent the others from being sent nor are hidden, and unsent ones stay due until the next end of a synchronization. Messages arriving while the synchronization is being ended are already handled normally.",
     ["histories", "fault_sequences", "crash_points"],
     "all histories of key exchanges, stale chains, restarts, purges and sending failures",
     "Tests leave history synchronization once with an empty queue.",
     [SM], [("queue of empty messages filled by decrypt and emptied by after_history_sync", SM)],
     ["messages passed to the sending hook while entering, staying in and leaving synchronization"])

prop("C11", "Signed pre keys are rotated in time and republished",
     "While the library runs, every backend's signed pre key is replaced and the new bundle published within the configured rotation period plus about a minute, again and again, and not earlier, under both supported asynchronous frameworks. If publishing fails it is retried after one minute, with the delay doubling up to one hour, until it succeeds, always publishing the bundle as it is by then (pre keys may have been used in the meantime), whereupon rotation continues normally. A backend purged in the meantime is not published again and doesn't stop the rotation of the others.",
     ["schedules", "fault_sequences", "configurations"],
     "all rotation periods, numbers of backends with differing ages, upload failure patterns, restarts, and purges at any time",
     "Tests never let time pass.",
     [SM], [("background task managing rotation", SM)],
     ["bundles published over virtual time"])

prop("C12", "Device lists of all backends are merged faithfully",
     "After any sequence of device list updates and refreshes for any accounts and backends, the reported devices are exactly those ever listed, each with exactly the backends it was ever listed for, marked active exactly for those whose latest list contains it, with the latest label any list provided (lists without label don't remove one). Updates for backends that are not loaded are refused, refused or repeated updates change nothing, and an update interrupted by a failure is completed by repeating it.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of updates over several accounts and backends, with any device ids and labels, over restarts and failures",
     "Tests feed one list per account.",
     [SM], [("update_device_list", SM), ("refresh_device_list(s)", SM)],
     ["device information reported by the API"])

prop("C13", "This device stays advertised and other entries are left alone",
     "Whenever the own account's device list is received, refreshed or created for a loaded backend and lacks this device, it is published again with this device and its label added and every other entry unchanged; a list that contains this device is not changed. A failure to publish is reported, and the next update repairs it.",
     ["histories", "inputs", "fault_sequences"],
     "all own device lists pushed or found on the server at any time, with any other devices and labels",
     "Tests never push an own device list lacking the own device.",
     [SM], [("own device handling in update_device_list", SM)],
     ["device lists on the server after every operation"])

prop("C14", "First creation publishes a complete, consistent identity",
     "Creating the library for the first time chooses a device id between 1 and 2^31-1 that is not used by any other device of the account, generates one identity key shared by all backends, publishes for each backend a bundle with that identity key and 100 one-time pre keys before listing the device there, and keeps all other list entries. Loading it again changes neither device id nor identity key nor any published data. Duplicate backends and invalid thresholds are rejected without any effect.",
     ["inputs", "configurations"],
     "all pre-existing device lists, numbers and orders of backends, random device id choices including colliding ones, repeated loads",
     "Tests create devices on an empty server and never force a device id collision.",
     [SM, IK], [("create", SM), ("identity key generation", IK)],
     ["server contents after create, at every intermediate publication"])

prop("C15", "An interrupted creation never leaves a broken device and can be resumed",
     "If creation fails or the process dies at any point, then at no time is this device listed for a backend without a matching bundle being published, and simply creating again completes the setup: the device ends up listed exactly once, under one device id and with one identity key, with complete bundles for all loaded backends, and no longer listed for removed ones.",
     ["crash_points", "fault_sequences", "configurations"],
     "failures and crashes before or after every single storage and network operation during creation, and sequences of them, also when backends are added or removed",
     "Tests never interrupt creation.",
     [SM], [("order of steps in create", SM), ("comparison of stored and loaded namespaces", SM)],
     ["server and storage contents after the interruption and after the next creation"])

prop("C16", "Adding, removing and purging backends keeps everything else intact",
     "Loading the library with an additional backend publishes its bundle and lists the device there; loading it without a backend, or purging one, removes this device's list entry and bundle for that backend and, for a loaded one, its sessions, key material and pending messages, and unloads it. Other devices' entries, the other backends' bundles, sessions and lists, the device id, the identity key and all trust remain as they were. A removed backend can be added again at any time and works again. Purging works although this device isn't on the list any more; if the list can't be changed nothing is deleted yet, and if only the bundle can't be deleted everything else is done, the failure being reported in both cases.",
     ["histories", "configurations"],
     "all sequences of adding, removing, purging and re-adding backends in the middle of conversations",
     "Tests use a fixed set of backends.",
     [SM], [("purge_backend", SM), ("backend changes in create", SM)],
     ["server contents", "device information", "ability to en- and decrypt per backend"])

prop("C17", "Purging an account removes all of it and nothing else",
     "After purging an account, nothing in the storage mentions the account any more: no devices, identity keys, trust in the identity keys on record, and, for the loaded backends, no sessions or pending messages; everything about other accounts is untouched, including accounts with similar names. The account can be contacted afresh afterwards, starting out undecided, and a purge interrupted by a failure or crash at any point is completed by purging again.",
     ["inputs", "histories", "crash_points"],
     "all account names, histories before the purge and interruption points",
     "Tests never purge.",
     [SM], [("purge_bare_jid", SM)],
     ["storage contents", "API answers about purged and other accounts"])

prop("C18", "Trust belongs to the pair of account and identity key",
     "The trust level reported for a device and used for its en- and decryption is the one last set for exactly its account and identity key, else the configured initial level; it is shared by devices of an account that use the same key, independent between accounts and keys, and survives restarts and device list changes. Setting trust works for any key, any account and any level name, before or after the device is seen.",
     ["histories", "inputs"],
     "all sequences of trust changes, keys, accounts, level names and restarts",
     "Tests set a single trust level once.",
     [SM], [("set_trust", SM), ("trust lookup in device information and encrypt", SM)],
     ["reported trust levels", "acceptance of messages and encryption"])

prop("C19", "Consistency repair restores the online data and nothing more",
     "After ensuring data consistency succeeded, for every loaded backend the device is listed and the published bundle equals the local one, whatever the state of the server was before; other entries are untouched and nothing is published where nothing was inconsistent. A failure to repair is reported, and repeating it completes the repair.",
     ["inputs", "fault_sequences", "histories"],
     "all kinds of damage to lists and bundles (missing, foreign, outdated, not downloadable) in any combination of backends",
     "Tests never damage server data.",
     [SM], [("ensure_data_consistency", SM)],
     ["server contents and publications"])

prop("C20", "Session replacement is all-or-nothing per backend and announced",
     "Replacing the sessions of a device replaces exactly its existing sessions with fresh ones, sends one empty message with the key exchange per replaced session to that device, and afterwards both sides communicate over the new sessions; backends without a session are left alone. If replacement fails for a backend for another reason than the storage, it is reported for that backend, the old session continues to work and the other backends are unaffected. Reported sending chain lengths are those of the existing sessions, none where there is no session.",
     ["histories", "fault_sequences", "inputs"],
     "all combinations of backends, existing sessions, bundle problems and sending failures",
     "Tests never replace sessions.",
     [SM], [("replace_sessions", SM), ("get_sending_chain_length", SM)],
     ["messages sent", "return values", "subsequent conversations"])

prop("C21", "The storage cache is invisible",
     "A storage with the cache enabled returns for every load exactly what the underlying storage would return, for any interleaving of overlapping operations (the caller not overlapping writes to the same key) and any failures of the underlying storage; failed writes and deletions change nothing, successful ones are passed on immediately, and those that had their effect before they failed or were cancelled are visible like any others. With the cache disabled every load is answered by the underlying storage. Values handed in or out are isolated: modifying them afterwards affects neither the storage nor later loads.",
     ["schedules", "fault_sequences", "histories"],
     "all sequences and interleavings of loads, stores and deletions over few keys, with failures at any operation",
     "Tests use the storage sequentially and without failures.",
     [ST], [("cache in Storage.load/store/delete", ST), ("copying in Just", ST)],
     ["values returned by concurrent loads", "underlying storage contents"])

prop("C22", "Typed storage access and Maybe values are lossless and checked",
     "Whatever is stored via the storage interface is loaded back equal and of the same type by the matching typed accessor, including all byte strings, absent values, empty and nested structures; loading a value as an incompatible type raises a type error instead of returning a wrong value. Optional values satisfy the documented laws: a present value is returned and mapped, an absent one yields the default, maps to an absent one and raises when forced, and the contained value can't be modified from outside.",
     ["inputs"],
     "all JSON values, byte strings, keys and type combinations",
     "Tests store only what the library itself happens to store.",
     [ST], [("typed accessors", ST), ("Maybe, Just, Nothing", ST)],
     ["return values and exceptions of the accessors"])

prop("C23", "The identity key pair is stable, unique and consistent",
     "There is one identity key pair per storage: it is generated from 32 random bytes at first use, persisted before it is used, and every later access - from any backend, after any restart or crash - yields the same key pair. The public key belongs to the private key in Ed25519 form, also when derived from a seed, stored as a private key, or converted; and the displayed fingerprint is the Curve25519 form of the public key in eight groups of eight lowercase hex digits.",
     ["inputs", "histories", "crash_points"],
     "all seeds and private keys, all crash points of generation, all public keys",
     "Tests never compare keys to an independent implementation or crash generation.",
     [IK, SM], [("IdentityKeyPair.get and conversions", IK), ("format_identity_key", SM)],
     ["public keys and fingerprints compared with independent arithmetic"])

prop("C24", "Data stored by the released version remains usable",
     "Storage contents written by version 1.1.0 - own identity, device id, labels, device lists, trust, sessions, pending messages - are read back with the same meaning by the current code: nobody is forced to re-verify keys, sessions continue, pending messages are sent, and the device is not published anew. Devices whose activity information is missing for a backend (which an interruption of 1.1.0 could cause) count as not supporting it until their device list is updated. The storage keys and formats documented by existing data are therefore stable.",
     ["histories", "configurations"],
     "recorded storages of the released version in various states, for toy and real backends",
     "No test loads data written by another version.",
     [SM, ST, IK], [("storage keys and value formats", SM), ("identity key storage format", IK)],
     ["API answers, messages and server contents after loading recorded storages"])

prop("C25", "Acknowledged state survives a crash at any point",
     "Once an operation has returned, its effects - decrypted messages, sessions, trust, device lists, labels, pending messages, identity - survive the process dying at any later point; and if the process dies during an operation, the library can be loaded again and continues with every other account, session and setting unaffected, and the interrupted operation can be repeated (except that a message just consumed by an interrupted decryption is not available a second time).",
     ["crash_points", "histories"],
     "process death before or after every single storage or network operation of every API operation",
     "Tests never crash.",
     [SM, ST], [("immediate writes", ST), ("order of writes in all operations", SM)],
     ["state reported after reloading from the storage"])

prop("C26", "Parameters are never modified and callers are decoupled",
     "No operation modifies the objects passed to it - device lists, plaintext mappings, recipient sets, priority orders, backend lists, messages, device information, stored values - and later modification of those objects by the caller doesn't affect the library. Returned collections are likewise independent from the library's state.",
     ["inputs", "histories"],
     "all operations with all kinds of arguments, modified afterwards",
     "Tests never compare arguments before and after a call.",
     [SM, ST], [("defensive copies", SM)],
     ["deep comparison of arguments around every call"])

prop("C27", "Skipped message key limits are configured as documented",
     "A backend accepts exactly the documented combinations of (non-negative) per-session and per-message limits, rejects all others, defaults the per-message limit to the per-session one and reports both unaltered. Under these limits messages arriving out of order are decryptable exactly as long as the limits allow.",
     ["inputs", "configurations"],
     "all combinations of limits including zero, missing and boundary values",
     "Tests use default limits.",
     [BE], [("validation in the backend base class", BE)],
     ["constructor acceptance and properties", "decryption around the limit"])

prop("C28", "The own label is published everywhere and persists",
     "The label of this device, given at first creation or set later, is reported by the library, published for this device in the device lists of all loaded backends and kept over restarts and backend changes; setting it leaves all other entries untouched and doesn't alter anything else about the device. The label given to later creations doesn't override the current one.",
     ["histories", "inputs", "fault_sequences"],
     "all labels including none, empty and non-ASCII ones, any device lists, restarts and backend changes",
     "Tests never change the label.",
     [SM], [("set_own_label", SM), ("label in create", SM), ("own label in update_device_list", SM)],
     ["device lists on the server", "reported own device"])

prop("C29", "Identity keys are looked up on demand and never change",
     "A device whose identity key isn't known yet is reported as soon as any of its bundles can be downloaded, with that bundle's identity key; as long as none can be downloaded it is left out without preventing anything else. Once an identity key is on record for a device, it is reported without further downloads and never changes, whatever is published later.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of bundles appearing, disappearing, changing and failing to download, for any set of backends including ones no longer loaded",
     "Tests always have all bundles available.",
     [SM], [("identity key lookup in device information", SM)],
     ["reported device information", "bundle downloads"])

prop("C30", "Blind trust before verification behaves as documented",
     "With the provided example trust manager, undecided devices of an account are trusted blindly if and only if no device of that account is manually trusted or distrusted at that time; otherwise exactly those devices are presented for a manual decision. The application is notified about exactly the blindly trusted devices with the unaltered identifier, previous decisions are never overwritten, and unknown level names of addressed devices are reported.",
     ["inputs", "histories"],
     "all combinations of trust levels over the devices of several accounts",
     "The example has no tests.",
     ["examples/btbv_session_manager.py"], [("trust decision of the example", "examples/btbv_session_manager.py")],
     ["trust levels after encryption", "callbacks of the example"])

prop("C31", "Operations on different accounts don't disturb each other",
     "While operations on different accounts (encryption including trust decisions, decryption, device list updates and refreshes, device information, trust changes, session replacement) and a change of the own label are in flight at the same time on one session manager (first messages of new sessions, which change the shared bundle, one at a time), each of them ends exactly as it would have ended alone, even if another one waits for the server or the user until then: it addresses, asks about, stores and returns only what belongs to its own account and call, and afterwards all device lists, trust levels, sessions and the own label are as after executing the operations one after the other.",
     ["schedules", "histories"],
     "all interleavings of one operation per account at the points where storage, server or user are awaited",
     "Tests execute one operation at a time.",
     [SM, ST], [("operations of the session manager", SM), ("storage cache", ST)],
     ["results of overlapping calls", "messages received by the peers", "state after each round"])

prop("C32", "Session managers in one process are independent",
     "Any number of session managers can be used in one process at the same time, also with equal account names, each with its own storage, server connection and contacts: operations, restarts, history synchronization mode, trust, device lists, labels, settings (such as the name of the undecided trust level), sessions and bundles of one have no influence on the others, whether their operations are executed one after the other or overlap.",
     ["schedules", "histories"],
     "all interleavings of operations of several session managers",
     "Tests use the session managers one after the other with distinct names and equal settings.",
     [SM, ST], [("state of session managers", SM), ("state of storages", ST)],
     ["results of calls", "server contents of each manager", "state after each round"])

prop("C33", "Failures of the application's own callbacks reach the caller unaltered",
     "An exception raised by the application's network, storage or trust callbacks during an API call ends that call and reaches the caller as the very exception that was raised, including subclasses with their own data and exceptions unrelated to this library. The only exceptions are the documented ones: failing bundle downloads while gathering device information or comparing the own bundle are tolerated; those needed to build a session are returned as the error of the respective device and backend by encrypt; failures of session replacement are returned for the respective backend. Afterwards the failed operation can be repeated.",
     ["fault_sequences", "histories"],
     "all API operations, failing at any of the callbacks they use with any exception",
     "Tests contain no failing callbacks.",
     [SM], [("error handling of all operations", SM)],
     ["exceptions raised by and returned from API calls"])

prop("C34", "The private identity key stays secret",
     "The private identity key, or the seed it is derived from, is only ever written to its own place in the storage. It appears neither in log records of any level (including tracebacks), nor in data handed to the application's callbacks, bundles, messages, exceptions, returned values or textual representations of the key pair, whatever fails.",
     ["inputs", "fault_sequences", "histories"],
     "all API operations with and without failures; keys with and without seed",
     "Tests don't look at logs.",
     ["omemo/identity_key_pair.py", SM], [("IdentityKeyPair", "omemo/identity_key_pair.py"), ("logging", SM)],
     ["log records", "callback arguments", "exceptions", "returned values", "storage contents"])

prop("C35", "A cancelled call leaves everything usable",
     "An API call that is cancelled by the application at any point where it waits for storage or network (as by a timeout) ends right away and leaves the session manager usable: identity, acknowledged trust levels, device lists, labels, sessions and responses that are due are still there, sessions are either in their previous or their next state, no other device is affected, and the same session manager can repeat the operation, decrypt what was not decrypted, and leaves history synchronization completely when told so again.",
     ["schedules", "fault_sequences", "histories"],
     "all API calls cancelled at any storage or network operation",
     "Tests never cancel anything.",
     [SM, ST], [("all API calls", SM), ("storage cache", ST)],
     ["state after a cancelled call", "results of repeated calls"])

prop("C36", "The server is contacted only where something has to be fetched or published",
     "API calls need the server only where something has to be fetched, published or sent. Loading again with the same backends, encrypting in existing sessions, decrypting messages of known devices without a response or publication due, device information of known devices, trust, pushed device lists (unless this device is missing in an own list), purging an account and chain lengths work with the server unreachable. Bundles are downloaded only for devices whose identity key is unknown, to build or replace sessions and for the consistency check, none of them successfully twice within a call; device lists only where a refresh is asked for, the sender of a message is unknown, a backend was added or removed, the own label is set or consistency is ensured, each once per backend and call (twice on first creation); nothing is published that the server already has, apart from own labels and backends being set up; messages are sent only as responses due and per replaced session.",
     ["histories", "inputs"],
     "all API calls in the histories of C01, C03, C08, C11, C15, C18 and C27, and histories without any server",
     "Tests don't look at the traffic.",
     [SM], [("all API calls", SM)],
     ["server operations per call", "results without a server"])

prop("C37", "Use doesn't accumulate state",
     "However often the same kinds of operations are repeated with the same accounts and devices - messages in and out including refused and repeated ones, failing and cancelled calls, device list updates, trust and label changes, session replacements, consistency checks, history synchronizations, signed pre key rotations, purges followed by new contact, backends removed and added again, restarts - neither the data in the storage (whatever its form, e.g. values listed repeatedly), nor the data the library keeps in memory, nor the background tasks, nor the published data keep growing. Within a history synchronization that never ends the same holds, apart from the pre keys kept for it. Once one has ended and everything was sent, no response stays queued and no pre key stays hidden.",
     ["histories", "inputs"],
     "all API calls over repeated histories",
     "Growth shows in long histories only, and functionally invisible repetitions in the stored data don't show at all.",
     [SM, ST], [("all API calls", SM), ("Storage: cache", ST)],
     ["sizes of the storage, the reachable memory, tasks and published data after every eleventh round"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    import sys
    sys.path.insert(0, HERE)
    NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"), encoding="utf8"))
    for p in P:
        pid = p["id"]
        if pid not in NOTES:
            continue
        n = NOTES[pid]
        checks.append({
            "property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json", "technique": n["technique"], "level": n["level"],
            "level_note": n["note"]
        })
    manifest = {
        "version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in NOTES
        ],
        "notes": "No hooks in /repo are needed: everything is observed at the public boundaries (storage, network hooks,"
                 " backend interface, API). Genuine defects were repaired by fix: commits, see KNOWN_FINDINGS.md."
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
