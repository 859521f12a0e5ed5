"""The texts of the properties. gen.py writes properties.jsonl, MANIFEST.json
and the rules in harness/props.json from it."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, rule, level_note,
         technique, assumptions=(), state=(), observe=(), level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, rule=rule, level_note=level_note, technique=technique,
                  assumptions=list(assumptions), state=list(state), observe=list(observe), level=level))


prop("C01", "Ratchet delivers every message once, whole, in any order",
     "Once two users have exchanged keys, every message either one encrypts decrypts at the other to exactly "
     "the original bytes, in whatever order and however late messages arrive, as long as no more than 80 messages "
     "of a chain are outstanding. A message that was lost does not disturb any other message, and one that was "
     "already received or that exceeds the allowed gap is refused without a change of state.",
     ["histories", "inputs"],
     "All interleavings of sends in both directions with deliveries, delays, reorderings, losses and duplications, all message contents and sizes including empty.",
     "The unit tests drive a few fixed scripts (in order, one reordering pattern, one loss); which key serves a message depends on the whole history of chain changes and gaps on both sides.",
     ["ratchet/ratchet.go", "ratchet/disk/disk.go"],
     [("Encrypt: advances the send chain, starts a new chain when it is the sender's turn", "ratchet/ratchet.go:Encrypt"),
      ("Decrypt, trySavedKeys, saveKeys, mergeSavedKeys: out of order messages", "ratchet/ratchet.go:Decrypt")],
     "rapid state machine: two ratchets after a real key exchange; send, deliver next/any/several in random order, drop, duplicate. Non-trivial: the history has at least one chain change, and at least one message was accepted after a later one of its chain.",
     "Random histories of up to some hundred operations against a reference model of acceptance; every acceptance and refusal of the real ratchet must match. Trusts the model and the crypto primitives.",
     "stateful property-based testing (rapid) against a reference model",
     ["messages are bounded to a few KB", "the model knows the documented limit of 80 missing messages"])

prop("C02", "Ratchet refuses every message its peer did not send, without effect",
     "A ciphertext that the peer did not produce for this conversation is refused, never yields plaintext and never panics. "
     "Refusing it changes nothing: every genuine message that could be decrypted before can be decrypted afterwards.",
     ["histories", "inputs"],
     "All histories of a conversation, and at each point all ciphertexts: altered, truncated, extended, spliced from genuine ones, from another conversation, reflected to the sender, random.",
     "The tests alter one bit of one message in one state; whether a failed decryption leaves a trace depends on the chain state it hits.",
     ["ratchet/ratchet.go"],
     [("header and body authentication", "ratchet/ratchet.go:Decrypt"),
      ("provisional keys are installed only after the body opened", "ratchet/ratchet.go:Decrypt")],
     "rapid state machine of C01 with forgeries (bit flips at every region, truncation, extension, header of one and body of another message, other conversations, reflection, random) interleaved. Non-trivial: a forgery was tried while genuine messages were outstanding and some of those were delivered later.",
     "Random search over forgeries and histories; compares later behaviour with the model that ignores forgeries.",
     "stateful property-based testing (rapid) with a forging adversary",
     ["no attempt to break the primitives"])

prop("C03", "A conversation survives saving and loading its ratchets at any time",
     "Saving a ratchet and loading it again at any point of a conversation, on either side and also in the middle of a key "
     "exchange, changes nothing: every message that would have been accepted still is and every one that would have been refused "
     "still is. Keys of missing messages are dropped only once they are older than the lifetime passed when saving.",
     ["histories", "crash_points"],
     "All histories of C01 with a restart of either side between any two operations, at any time distance.",
     "The tests save and load at fixed points of one script; a field that is not saved matters only in states where it will be used later.",
     ["ratchet/ratchet.go", "ratchet/disk/disk.go"],
     [("Marshal/Unmarshal of the complete state", "ratchet/ratchet.go:Marshal"),
      ("expiry of saved keys", "ratchet/ratchet.go:Marshal")],
     "rapid state machine of C01 with save/load of either side (through the disk encoding) and a moving clock. Non-trivial: a reload happened and messages sent before it were delivered after it.",
     "Random histories against the model.",
     "stateful property-based testing (rapid) against a reference model",
     ["private identity keys are supplied by the caller on loading, as the client does"])

prop("C04", "A key exchange connects exactly its two parties",
     "After two users complete a key exchange each can decrypt what the other encrypts, whoever talks first, and nobody else who saw "
     "the exchange can. Any other data presented as the peer's part of the exchange is refused with an error, never with a panic, "
     "and does not prevent the exchange from completing with the genuine part.",
     ["inputs", "histories"],
     "All identities, all speaking orders, all malformed, altered, replayed or misdirected exchange messages.",
     "The tests complete one honest exchange; they never present a bad one.",
     ["ratchet/ratchet.go", "blobshare/blobshare.go"],
     [("FillKeyExchange / CompleteKeyExchange", "ratchet/ratchet.go:CompleteKeyExchange"),
      ("unpacking of the encrypted public value", "blobshare/blobshare.go:UnpackSaltNonce")],
     "fresh identities per case; honest exchanges with random speaking order and an outsider; altered exchange messages of every kind. Every case is non-trivial (an outsider or an altered exchange takes part).",
     "Random search; key derivation is slow (scrypt), so hundreds of cases.",
     "property-based testing (rapid) of the exchange with adversarial messages",
     ["no attempt to break the primitives"])

prop("C05", "A stolen ratchet state opens neither past nor healed future messages",
     "Whoever obtains a user's ratchet state cannot decrypt any message that user had received before, because used keys are "
     "erased from it. He cannot decrypt messages of the peer any more either once both users have "
     "contributed a fresh key after the theft.",
     ["histories"],
     "All histories of a conversation with a theft of either side's state at any point.",
     "The tests never look at what a state still contains, nor use a copy of it.",
     ["ratchet/ratchet.go"],
     [("chain keys are replaced on every message", "ratchet/ratchet.go:Encrypt"),
      ("root key and DH step on every change of direction", "ratchet/ratchet.go:Decrypt"),
      ("saved keys are deleted on use", "ratchet/ratchet.go:trySavedKeys")],
     "rapid state machine of C01 with thefts (deep copies of a ratchet); consumed key material is searched for in the saved state, copies try all past and later messages. Non-trivial: a copy was tried on a message received before the theft or on one after healing.",
     "Random histories; a key that lingers or a step that reuses one is found when a copy can open what it must not.",
     "stateful property-based testing (rapid) with state theft",
     ["the thief only listens"])

prop("C06", "A session is set up only with the holder of the expected keys",
     "A completed session setup means: both ends hold the same session keys, the client talks to the server whose key it asked for, the server "
     "knows the client's true identity, and no eavesdropper sees either the identity or the keys. Any alteration, replay, truncation, reflection or "
     "reordering of the setup messages, or a peer lacking the private keys, makes the setup fail at the honest end, without panic or hang, and for it alone.",
     ["inputs", "schedules"],
     "All deviations of the peer or the network at every step and byte of the setup, all limits, several clients at once.",
     "The tests run the honest setup in one process; the documented protocol has no independent implementation to compare with and nobody deviates.",
     ["session/kx.go", "doc/session.txt"],
     [("Initiate, Respond: proofs over the transcript", "session/kx.go:Initiate"),
      ("one time ephemeral keys of the responder", "session/kx.go:regenerateEphemeral")],
     "the real initiator against a responder written from doc/session.txt and vice versa, with honest runs, deviations at each step (wrong keys, altered plaintext), and network attacks on each frame (flip, truncate, extend, drop, duplicate, replay from another run, swap). Non-trivial: not an honest run, or several clients in parallel.",
     "Random search over deviations with differential testing against an independent implementation of the documented protocol; also an interoperability check.",
     "differential and adversarial property-based testing (rapid) against a reference implementation",
     ["the transport is an in-memory stream", "no attempt to break the primitives"])

prop("C07", "A session delivers the peer's messages exactly once, in order, unaltered",
     "The k-th message read from an established session is the k-th message the peer wrote or an error, for every alteration, replay, reordering, loss, "
     "insertion, reflection or truncation on the wire and at any distance. Every message within the negotiated size is delivered, a larger one is refused "
     "with an error without disturbing the session, and a frame claiming to be larger is refused without being buffered.",
     ["inputs", "histories"],
     "All sequences of messages of all sizes in both directions, all manipulations of the byte stream, streams longer than 65536 messages.",
     "The tests write a handful of small messages over an honest connection; replay protection depends on counters at distances they never reach.",
     ["session/kx.go"],
     [("sequence numbers as nonces", "session/kx.go:incSeq"), ("size limit on both sides", "session/kx.go:writeWithKey")],
     "rapid state machine on an established session: writes of chosen sizes, bulk writes, deliveries and attacks (replay/replacement at distances 1..65536, flip, drop, swap, reflection, foreign frames, junk, oversize claims), plus long streams and streams cut at every kind of place. Non-trivial: at least one attack, cut, long stream or refused oversize write.",
     "Random search against the model 'k-th read is k-th write'.",
     "stateful property-based testing (rapid) with an adversary on the wire",
     ["no attempt to break the primitives"])

prop("C08", "An identity is accepted only if it is exactly what its owner signed",
     "A public identity passes verification exactly when its name, nick, keys and identifier are those its owner signed and its identifier is the "
     "fingerprint of its key; any other content, including re-signed or re-digested variants by someone else, is refused, and decoding arbitrary data "
     "never panics. Encoding and decoding identities and fingerprints is lossless.",
     ["inputs"],
     "All names and nicks, all alterations of every field and of the encoding, all signers, all fingerprint strings.",
     "The tests alter one field of one identity; who may sign which identifier is not tested at all.",
     ["zkidentity/zkidentity.go"],
     [("digest and signature over all fields", "zkidentity/zkidentity.go:RecalculateDigest"),
      ("Verify", "zkidentity/zkidentity.go:Verify"), ("UnmarshalPublicIdentity verifies", "zkidentity/zkidentity.go:UnmarshalPublicIdentity")],
     "generated names and nicks; each field, the encoding and combinations altered, with and without recomputing digest and signature by another key; fingerprint strings of all shapes. Non-trivial: the identity was altered.",
     "Random search with an oracle that recomputes what the owner signed. One known finding: the digest does not separate name and nick.",
     "property-based testing (rapid): round trips and tampering with an independent oracle",
     ["strings over 16 MB in an encoding are not tried (decoder allocates first)"])

prop("C09", "A protected blob opens with its password only, and is then unaltered",
     "Data protected with a password or key opens, after packing and unpacking, to exactly the original bytes with that password or key and fails with any other. "
     "Any alteration or truncation of the packed data is refused with an error and never panics.",
     ["inputs"],
     "All passwords, data of all sizes, all alterations of the packed form, all other passwords.",
     "The tests use one password and one plaintext and never shorten the packed form.",
     ["blobshare/blobshare.go"],
     [("DeriveKey, Encrypt, Decrypt", "blobshare/blobshare.go:Decrypt"), ("packing", "blobshare/blobshare.go:UnpackSaltNonce")],
     "generated passwords, near-miss passwords, data, cost parameters and alterations (flip, truncate, extend, swap parts, too short). Non-trivial: every case with an altered blob, another password, or a non-empty packed input.",
     "Random search; low scrypt cost for most cases, the production cost for some.",
     "property-based testing (rapid): round trips and tampering",
     ["passwords that differ only in trailing zero bytes are one password (HMAC padding)"])

prop("C10", "The record database returns exactly what was stored, after any history",
     "After any sequence of changes, saves and reopenings the database holds exactly the tables and records that were set and not deleted since, as of the last save, with "
     "every value byte for byte, also when used by several goroutines. Saving keeps no more than the configured number of backups, each being an earlier saved state.",
     ["histories", "inputs", "schedules"],
     "All sequences of set, delete, new table, delete table, save and reopen, over all single line names and values, all backup depths, several goroutines.",
     "The tests store a few plain records once; formats that do not survive a round trip and forgotten tables only show for particular names or histories.",
     ["inidb/inidb.go"],
     [("Save writes all tables, default table first", "inidb/inidb.go:Save"), ("New parses them", "inidb/inidb.go:New"), ("prune", "inidb/inidb.go:prune")],
     "rapid state machine against maps, names and values from adversarial alphabets (brackets, quotes, '=', comments, base64); concurrent writers under the race detector. Non-trivial: at least one save and reopen with more than one record on disk, or several writers.",
     "Random histories against a map model.",
     "stateful model-based property testing (rapid) and race detection",
     ["names and values are single lines without surrounding blanks; names without '='; keys do not start like a comment (what the file format can express)"])

prop("C11", "A save interrupted or failing at any point leaves a usable database",
     "When the process dies or a file operation fails at any point while a database is being created or saved, the database can be opened afterwards and holds either "
     "exactly what was saved before or exactly what was being saved. A save that reported success has happened, and a failed save can be repeated.",
     ["crash_points", "fault_sequences"],
     "Every system call of creating and saving databases of generated content and backup depth: killed there, or failing with ENOSPC, EIO, EMFILE or EACCES.",
     "No test kills or fails a save.",
     ["inidb/inidb.go"],
     [("write aside, then rename", "inidb/inidb.go:Save")],
     "a child process saves a generated database; strace kills it at, or fails, each file system call in turn (all of them, enumerated per generated database). Non-trivial: every fault that was injected.",
     "Enumerates every fault point of each generated save; process death, not power loss (no reordering of unsynced writes).",
     "generated databases with exhaustive fault injection at system calls (strace)",
     ["the kernel keeps what was written before the process died"], level="fault_enumeration")

prop("C12", "Tags are never held twice, lost or invented",
     "A tag stack hands out each of its tags to at most one holder at a time, accepts returned ones up to its depth, reports exhaustion and overflow, and in its "
     "blocking form makes a taker wait until a tag is returned and then wakes it, for any number of goroutines.",
     ["histories", "schedules"],
     "All sequences of takes and returns, all depths, any number of concurrent users.",
     "The tests take and return tags in one fixed order.",
     ["tagstack/tagstack.go"],
     [("Push, Pop under one lock with a condition variable", "tagstack/tagstack.go:Pop")],
     "random push/pop histories against a slice; concurrent users of a shared stack (also with the race detector and with one processor). Non-trivial: over- or underflow occurred, several users, or waiters.",
     "Random histories and schedules.",
     "model-based property testing (rapid) and concurrent stress with invariants")

prop("C13", "An accepted message reaches its recipient, intact, until acknowledged",
     "Every message whose delivery was accepted is handed to its recipient with its sender, content and kind unaltered, in the order accepted, exactly once per period "
     "in which the recipient is online, and again in later periods until it is deleted, and never after that. This holds across restarts and any concurrency of senders and "
     "recipients. A delivery interrupted at any point leaves the message whole or absent, never damaged, and disturbs no other message.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "All histories of deliveries, online periods, acknowledgements, restarts and disabling, all schedules of senders and recipients, every system call of a delivery.",
     "The tests deliver to one user from one goroutine and read everything back; the queue's races (going online while a message arrives, deleting while delivering, two deliveries at once) and crashes are not reached.",
     ["zkserver/account/account.go"],
     [("Deliver writes aside and renames into the cache", "zkserver/account/account.go:Deliver"),
      ("Online: one delivery loop per period, woken by deliveries", "zkserver/account/account.go:Online"),
      ("Delete", "zkserver/account/account.go:Delete")],
     "rapid state machine over deliveries, online/offline, receive, acknowledge, restart, disable; concurrent senders and reconnecting recipients (plain, one processor, race detector); simultaneous bursts; a delivery killed or failed at every system call. Non-trivial: redelivery and acknowledgement occurred, several messages in flight concurrently, or a fault was injected.",
     "Random histories and schedules against a queue model; faults enumerated for generated deliveries (process death, not power loss).",
     "stateful property-based testing (rapid), concurrent stress, fault injection (strace)",
     ["the wall clock does not jump backwards"])

prop("C14", "The account directory shows exactly the accounts it should",
     "A user is found by nick exactly when an enabled account with that nick was created and is listed, and then as the identity it was created with; accounts are created, "
     "listed, disabled and enabled independently of each other, an existing or disabled account is not replaced, and its messages are kept. An operation interrupted at any "
     "point leaves every other account usable and can be repeated.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "All histories of account operations over several identities and clashing nicks, concurrent users, every system call of an operation.",
     "The tests create one account and toggle it once, on an intact disk.",
     ["zkserver/account/account.go", "inidb/inidb.go"],
     [("Create/Find/Push/Pull/Enable/Disable", "zkserver/account/account.go:Create")],
     "rapid state machine against a map of accounts; several users at once; every operation killed or failed at every system call. Non-trivial: an operation was refused and more than one account existed, several users at once, or a fault was injected.",
     "Random histories against a model; whether a disabled account's nick is still found or reserved is left open.",
     "stateful model-based property testing (rapid) and fault injection (strace)")

prop("C15", "A server relays every accepted message, whole and in order, to its recipient",
     "Every message a server acknowledges reaches the session of its recipient with the sender's true identity, its content and its kind, in the order accepted, once per "
     "session, again in later sessions until acknowledged and not after that, and nobody else. This holds for any number of users who send, connect, take over their own sessions and "
     "vanish at any stage and at the same time, and when the server is killed at any time; whoever connects last is served.",
     ["histories", "schedules", "crash_points"],
     "All histories and schedules of connecting, sending, receiving, acknowledging, taking over, vanishing, all message sizes the protocol carries, kill -9 at any time.",
     "No test starts the server or connects two clients at once.",
     ["zkserver/zkserver.go", "zkserver/cache.go", "zkserver/account/account.go", "session/kx.go"],
     [("handleSession, takeover of an online account", "zkserver/zkserver.go:handleSession"),
      ("sessionNtfn turns queue notifications into pushes with a tag", "zkserver/zkserver.go:sessionNtfn"),
      ("handleCache, handleProxy", "zkserver/cache.go:handleCache")],
     "the built server as a black box over TLS with a client written from the protocol documents: rapid state machine over a few users; concurrent users with reconnects and kills; storms of "
     "clients that abandon their sessions at every stage; also with a race-detecting server. Non-trivial: a message was delivered to a user that was offline and one was acknowledged, or users ran concurrently.",
     "Random histories and schedules against a queue model.",
     "stateful property-based testing (rapid) of the running server, concurrent stress, race detection",
     ["loopback network", "a refused message of within 200 bytes of the size limit is accepted behaviour"])

prop("C16", "The server lets in, creates, finds and serves exactly whom its policy says",
     "Accounts are created only as the policy says, with a token that works once and until it expires, and only for identities whose signature is valid; a session is given only to the "
     "holder of the private key of an existing enabled account, a disabled user is told so and ends at once, senders to it are told, and enabling restores its messages. The directory and the "
     "server's own identity are shown only where configured, and then exactly.",
     ["histories", "schedules", "inputs"],
     "All histories of administrator and user actions under all policies, over restarts and reconfiguration, any number of simultaneous attempts, all damaged identities and tokens.",
     "No test starts the server; policies, tokens and disabling have none.",
     ["zkserver/zkserver.go", "zkserver/account.go", "zkserver/pending.go", "zkserver/account/account.go", "tools/zkservertoken/zkservertoken.go", "tools/zkserverctl/zkserverctl.go"],
     [("handleAccountCreate checks policy, token and identity", "zkserver/account.go:handleAccountCreate"),
      ("validToken", "zkserver/pending.go:validToken"), ("preSession", "zkserver/zkserver.go:preSession"), ("socketHandler", "zkserver/zkserver.go:socketHandler")],
     "the built server and tools: rapid state machine over creation (tokens of all kinds, damaged identities), connecting, disabling, enabling, sending, finding, identifying, restarting with another "
     "configuration; simultaneous use of tokens; disabling while users reconnect; impostors. Non-trivial: something was refused, or attempts were simultaneous.",
     "Random histories and schedules against a model of the policy. One known finding: an impostor that knows a public key ends the user's session.",
     "stateful property-based testing (rapid) of the running server and its tools, race detection",
     ["whether an attempt that fails for another reason uses up its token is left open", "whether a disabled user is found in the directory is left open"])

prop("C17", "A rendezvous PIN yields exactly the blob it was given for",
     "Every accepted blob is returned, exactly, to whoever presents its PIN, any number of times and after the server was killed at any time, while unknown PINs yield an error; no PIN is given out "
     "twice, for any number of users at once. A blob that is too large or has an invalid expiration is refused without harm to the session.",
     ["histories", "schedules", "crash_points", "inputs"],
     "All histories and schedules of uploads and downloads, all blob sizes and expirations, kill -9 at any time.",
     "No test uses rendezvous.",
     ["zkserver/rendezvous.go", "inidb/inidb.go"],
     [("handleRendezvous", "zkserver/rendezvous.go:handleRendezvous"), ("handleRendezvousPull", "zkserver/rendezvous.go:handleRendezvousPull")],
     "the built server: rapid state machine of uploads, downloads and kills; many users at once with several requests outstanding, killed meanwhile. Non-trivial: several blobs were accepted and one was downloaded.",
     "Random histories and schedules against a map. Expiry is not implemented in the server and not claimed.",
     "stateful property-based testing (rapid) of the running server, concurrent stress, race detection",
     ["a blob of exactly 4096 bytes and an expiration of exactly 168 hours are left open (text and code differ)"])

prop("C18", "Nothing a peer sends, and no damaged file, stops the server from serving others",
     "Whatever bytes anybody sends at any stage of a connection or to the administration socket, in whatever order and without reading replies, the server goes on, all other users keep their sessions and "
     "messages, and the same user can connect again and is served. Damaged files in a user's queue or incomplete accounts do not keep other messages from being delivered nor other users from being found.",
     ["inputs", "histories", "schedules"],
     "All byte sequences before, during and after the handshake, all tags, acknowledgements, lengths and floods, all damaged files.",
     "No test sends the server anything malformed.",
     ["zkserver/zkserver.go", "zkserver/cache.go", "zkserver/rendezvous.go", "zkserver/account.go", "session/kx.go", "zkserver/account/account.go"],
     [("preSession", "zkserver/zkserver.go:preSession"), ("handleSession checks tags", "zkserver/zkserver.go:handleSession"), ("sessionWriter unblocks others", "zkserver/zkserver.go:sessionWriter")],
     "the built server with two bystanders exchanging messages: rapid sequences of anonymous garbage, broken handshakes, frames, tags, acknowledgements, malformed and mutated messages, floods "
     "without reading, spam, admin socket garbage; after each attack the bystanders are checked, in the end the attacker as an ordinary user. Damaged files of several kinds. Non-trivial: at least one attack or damaged file.",
     "Random search with structured mutation.",
     "property-based fuzzing (rapid) of the running server with an availability oracle, race detection",
     ["a file of a message of the format before the cleartext flag counts as a message", "resource exhaustion by sheer volume is not claimed"])

prop("C19", "What a user types reaches the right reader's window and log, once, in order",
     "Every line a user types to a contact or a group is shown at every addressed reader in the conversation with its author, and in the author's own window, exactly once, in the order typed, "
     "character for character, and nowhere else; windows and logs agree. This includes readers that are offline, connections that break at any moment, restarts, closed windows and names that "
     "coincide. Only lines that were in flight when the sender's own connection broke may be missing, and whatever the server accepted is shown.",
     ["histories", "schedules", "crash_points", "inputs"],
     "All histories of typing, switching and closing windows, going offline and online, restarting, with connections cut at any command, deliveries held back, several lines typed at once, all texts and all coincidences of names.",
     "No test runs a client at all: windows, scheduler, ratchets, session and logs are only exercised by hand.",
     ["zkclient/zkclient.go", "zkclient/mainwindow.go", "zkclient/msg.go", "zkclient/push.go", "zkclient/groupchat.go", "zkclient/ratchet.go", "zkclient/tagstack"],
     [("say, action: what is typed", "zkclient/mainwindow.go:action"), ("scheduler keeps commands until they are written", "zkclient/msg.go:scheduler"),
      ("handlePush decrypts and dispatches", "zkclient/push.go:handlePush"), ("printC prints and logs", "zkclient/zkclient.go:printC"),
      ("groupConversation, getConversation", "zkclient/zkclient.go:groupConversation")],
     "real clients (windows, scheduler, TLS sessions, files) of three users against a relay that stands in for the server: rapid state machine over typing (contact, group, action, from windows or by command, several lines "
     "at once while the terminal is slow), focus, close, offline, online, cut at the n-th command before/after handling, held deliveries, restart; worlds in which nicks, group names and the console's name coincide. Non-trivial: at "
     "least three lines and at least one cut, offline period or restart.",
     "Random histories against the list of what was typed; logs are compared completely, windows must show the end of the logs.",
     "stateful property-based testing (rapid) with real clients and fault injection",
     ["the relay stands in for zkserver (C15 checks the real one)", "text is valid UTF-8 without control characters other than tab", "files are not damaged by restarts (orderly stop)"])

prop("C20", "A contact is who he claims to be, and an exchange can always be completed",
     "Somebody becomes a contact of a client only by an exchange that one of the two began, and then with exactly the identity its owner signed; forged, altered or misdirected offers, directory answers, PIN data, "
     "wrong passwords and foreign resets create or change no contact. An exchange or a reset that nothing disturbs completes, also when both sides look for each other at once, and afterwards both can talk. One that was "
     "disturbed, by a broken connection, a restart, or being offline at any moment, can be repeated until it does, and contacts survive restarts; a contact whom his user deletes, at whatever stage, is gone and told if possible, and only a new exchange, like a first one, brings him back.",
     ["histories", "schedules", "crash_points", "inputs"],
     "All histories of lookups, PIN exchanges, resets, deletions, restarts, going offline and online, with connections cut at any command and deliveries held back, and of forged messages of each kind at each stage, with and without directory, with coinciding nicks.",
     "No test runs a client; ratchet tests complete one exchange in memory without identities, files, crossing offers or losses.",
     ["zkclient/zkclient.go", "zkclient/push.go", "zkclient/identity.go", "zkclient/acceptclientfingerprint.go", "zkclient/kxacceptwindow.go", "zkclient/kxwindow.go", "zkclient/reset.go", "zkclient/blobkeys.go", "zkclient/addressbook.go"],
     [("step1IDKX: the offer", "zkclient/zkclient.go:step1IDKX"), ("step2IDKX, step2IDKX2: the answer", "zkclient/push.go:step2IDKX2"),
      ("step3IDKX: the completion", "zkclient/push.go:step3IDKX"), ("reset, handleResetRatchet", "zkclient/reset.go:handleResetRatchet"), ("find and its reply", "zkclient/zkclient.go:find")],
     "three real clients and an attacker's account on the relay of C19: rapid state machine over find, /m to strangers, PIN offer/fetch/accept with right and wrong passwords, both looking at once, reset, restart, offline, cut at the n-th command, "
     "hold, and forgeries (identities altered in every field, foreign identities, garbage, damaged offers, false directory answers, false PIN data, foreign resets). Non-trivial: an exchange began and something was forged or disturbed.",
     "Random histories; identities on disk and in address books are compared with the signed ones after every quiescence; in the end every pair that began an exchange must be able to talk after at most six repetitions.",
     "stateful property-based testing (rapid) with real clients, an adversary and fault injection",
     ["the relay stands in for zkserver", "whoever lets a user accept an identity with a PIN and its password is believed to know its owner", "after a PIN exchange was disturbed it may be necessary to exchange PINs again"])

prop("C21", "A group's members are who its administrator made members, for everybody",
     "Only the administrator of a group adds, removes and names its members: a user joins with an unexpired one-time invitation of the administrator to him, and after a kick or part nothing more of the group is sent to or shown by the one who left. "
     "Lists, kicks, kills, parts, joins, messages and invitations that are forged, outdated, reordered or malformed change nothing and show nothing. Once everything is delivered all members' lists, in memory, on disk and after a restart, equal the "
     "administrator's, whoever was offline meanwhile; messages go to and are shown by exactly the members, and a change of members does not take a user to another window.",
     ["histories", "schedules", "inputs"],
     "All histories of creating, inviting, joining, leaving, kicking, ending and talking in several groups by four users, with deliveries held back or reordered, offline periods, restarts, expired invitations, and forged group commands of each kind.",
     "No test runs a client; nothing tests group chats.",
     ["zkclient/groupchat.go", "zkclient/groupinvites.go", "zkclient/push.go", "zkclient/mainwindow.go"],
     [("gcNew, gcKick, gcPart, gcKill", "zkclient/groupchat.go:gcKick"), ("handleGroupJoin, handleGroupKick, handleGroupList", "zkclient/push.go:handleGroupJoin"),
      ("invitations: joinDBAdd, delInvite", "zkclient/groupinvites.go:delInvite"), ("validName", "zkclient/groupchat.go:validName")],
     "four real clients on the relay of C19: rapid state machine over group commands typed by everybody (also by those who may not), forged and altered group commands sent with valid ratchets, invitations that expire, deliveries held back and "
     "reordered, offline, restart, cut, focus. Non-trivial: members changed at least twice and something was forged or disturbed.",
     "Random histories against a model of the members; lists in memory and on disk, invitations, logs, what was sent and the focused window are compared whenever everything has been delivered; after a connection was cut only safety is demanded.",
     "stateful property-based testing (rapid) with real clients, an adversary and fault injection",
     ["the relay stands in for zkserver", "after a connection was cut a lost group command may leave lists behind until the next change", "files are not damaged by restarts (orderly stop)"])

prop("C22", "A file arrives whole, once, under its own name, and touches nothing else",
     "A file that a user sends arrives once at the receiver in the spool directory with exactly its content, under its own base name, prefixed with as many 1s as needed so that nothing that is there is overwritten, and the receiver is told from whom "
     "it came and where it is; this also holds for files sent at the same time, with the same content or name, while others write, and across restarts and reconnects of the receiver. Whatever names, sizes, digests, offsets and chunks a contact "
     "makes up, no file outside spool is created or changed, and nothing incomplete, damaged or of another size ever appears in spool. What cannot be sent is refused with an error.",
     ["histories", "inputs", "schedules", "crash_points"],
     "All histories of sends (any name, content, chunk size, several at once) among three users, with deliveries held back and released in parts, restarts between any two chunks, cut connections, files that the user keeps in spool, and made up file commands.",
     "No test runs a client; nothing tests file transfers.",
     ["zkclient/chunk.go", "zkclient/send.go", "zkclient/mainwindow.go"],
     [("doHandleChunkNew, doHandleChunk: assembly", "zkclient/chunk.go:doHandleChunk"), ("chunkFilename: the name", "zkclient/chunk.go:chunkFilename"), ("completeSend: the sender", "zkclient/send.go:completeSend")],
     "three real clients on the relay of C19: rapid state machine over /send (names that look like identities, digests, prefixes of each other; contents around the chunk size), several sends at once, file commands a contact makes up (names that lead out of spool, "
     "lost, repeated, damaged, longer, shorter, misplaced, swapped chunks, changed announcements), own files, directories and links in spool, held deliveries released in parts, restarts, offline, cuts. Non-trivial: at least two transfers and one of these disturbances.",
     "Random histories; whenever everything is delivered every file in spool is matched with a transfer (content, name, sender) and all other files of the client are compared with what they were; transfers of a sender whose connection was cut meanwhile may be missing.",
     "stateful property-based testing (rapid) with real clients, an adversary and fault injection",
     ["the relay stands in for zkserver", "names leading out of spool are generated so that they stay in scratch space", "empty files cannot be sent"])

prop("C23", "What others send cannot crash, hang, cut off or deceive the client",
     "Whatever a contact, a stranger or the contents of an answer of the server say - odd texts, numbers, lists, sizes, cut, damaged, oversized or wrongly compressed commands, alone or in bursts - the client keeps running, stays connected and is not kept "
     "busy: what others say to the user and what the user says to them meanwhile arrives, once and in order, and nothing else changes but what the command may change (no other file, group membership or contact). Text of others never reaches the "
     "terminal or a log as a control character, as a line of its own or under the name of somebody else, and a contact with an odd nick is kept under a name and a log of its own. Where the server itself breaks the protocol the session may end, but the client runs on and can connect again.",
     ["inputs", "histories", "schedules"],
     "All sequences of commands whose fields, encodings, sizes and origins are arbitrary, mixed with honest conversation in private and in groups, at any speed, with any answers and properties of the server, and all nicks of contacts.",
     "No test runs a client; nothing tests what it does with odd commands.",
     ["zkclient/push.go", "zkclient/zkclient.go", "zkclient/msg.go", "zkclient/welcome.go", "zkclient/addressbook.go"],
     [("handlePush: commands of others", "zkclient/push.go:handlePush"), ("handleRPC: answers of the server", "zkclient/zkclient.go:handleRPC"), ("welcomePhase: properties", "zkclient/zkclient.go:welcomePhase"),
      ("printf, printC: what is shown", "zkclient/zkclient.go:printC"), ("scheduler: the queue of what is sent", "zkclient/msg.go:scheduler"), ("addressBookAdd: nicks", "zkclient/addressbook.go:addressBookAdd")],
     "three real clients (sometimes a fourth with an odd nick) on the relay of C19, three groups: rapid state machine in which a contact, a stranger and the server send alice commands with odd texts (control characters, forged lines, invalid UTF-8, folding letters, "
     "5 KB runs), odd numbers, cut, damaged, oversized, wrongly compressed and bomb payloads, group lists, file commands, junk without a ratchet, odd answers, odd welcome properties and raw protocol messages, in bursts or one by one, while carol and alice talk. "
     "Non-trivial: at least three hostile commands and something said meanwhile.",
     "Random histories; at the end everything honest must have arrived in order and nothing else under those names, every window and log must consist of well formed lines, all other files must be as they were, and the client must come to rest, online.",
     "stateful property-based testing and structured fuzzing (rapid) with real clients and an adversary",
     ["the relay stands in for zkserver", "whether a session may end is not judged where the server itself breaks the protocol", "a line is forged when it starts with what only others could have caused",
      "a contact that controls the server may reset a ratchet (C20)", "payloads inflate to 150 MB at most, a reaction may take 40 s"])
