#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=None)))
m = lambda n, w: dict(name=n, where=w)

p("C01", "Reading a file returns exactly its plaintext",
  "For every regular file of a supported gocryptfs volume - any length including zero, exact block multiples and sizes beyond 132 KiB, with or without file holes, stored under a short (unhashed) encrypted name - reading it through the proxy succeeds and returns exactly the plaintext bytes that gocryptfs stored. This holds for every supported volume variant (HKDF on or off, padded or raw base64 names, AES-GCM or AES-SIV content encryption).",
  ["inputs", "configurations"],
  "all file lengths around every block / buffer boundary, all hole patterns of up to 4 blocks, all volume variants",
  "No existing test decrypts a file through the file tree at all; contentenc tests sample seven offset ranges.",
  ["filetree/decrypt.go", "filetree/filetree.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/offsets.go", "gocrypt/cryptocore/cryptocore.go", "requester/requester.go"],
  [m("header parse + blockwise AEAD decrypt", "filetree/decrypt.go:decryptFile"), m("per-block associated data blockNo||fileID", "gocrypt/contentenc/content.go:concatAD"), m("backend selection from feature flags", "filetree/filetree.go:Init")],
  ["FileTree.ReadFile", "SFTP READ"])
p("C02", "Tampered file content is never served as genuine",
  "If the stored bytes of a file differ from what gocryptfs wrote - a byte changed anywhere, a block reordered, duplicated, removed from the middle or taken from another file or position, a header changed, or the file cut inside a block - a read fails without returning data, unless what remains is itself a well-formed file of authentic blocks in their original positions (truncation at a block boundary, all-zero blocks as file holes). In no case does a read return bytes that are not the authentic plaintext of that block position of that file.",
  ["inputs", "fault_sequences"],
  "every single-byte change at every offset, every block permutation/substitution over two files of three blocks, every truncation length",
  "No existing test feeds a modified ciphertext to the decryption path.",
  ["filetree/decrypt.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/siv_aead/siv_aead.go"],
  [m("AEAD Open with blockNo||fileID", "gocrypt/contentenc/content.go:DecryptBlock"), m("header version / id checks", "gocrypt/contentenc/file_header.go:ParseHeader"), m("stop at first bad block", "gocrypt/contentenc/content.go:DecryptBlocks")],
  ["FileTree.ReadFile"])
p("C03", "A directory listing that succeeds is exact",
  "A listing that succeeds holds exactly one entry for every stored object whose name decrypts in that directory, carrying the decrypted name, the object's kind, mode and modification time and, for files, the plaintext size; gocryptfs bookkeeping files and undecryptable names are left out. If any information needed for the listing cannot be obtained (remote failure, overload, timeout), the listing fails instead of being incomplete.",
  ["inputs", "schedules", "fault_sequences"],
  "all directory contents over an alphabet of entry shapes, every position of one or two remote failures, every early timeout in any explored interleaving of concurrent listings",
  "No existing test lists a directory through the file tree; timeouts and mid-listing failures are never injected.",
  ["filetree/filetree.go", "requester/makerequest.go", "gocrypt/nametransform/names.go"],
  [m("decrypt every listed name", "filetree/filetree.go:rangeInDir"), m("size translation", "gocrypt/contentenc/offsets.go:CipherSizeToPlainSize")],
  ["FileTree.ReadDir", "SFTP READDIR"])
p("C04", "Answers do not depend on request history",
  "While the remote volume does not change, every list, stat and read gives the same answer it would give in a fresh session, whatever sequence of requests preceded it, however many directories were visited and whichever requests failed in between. A remote failure only affects the requests that needed the failed access: repeating the request once the remote is healthy gives the right answer.",
  ["histories", "fault_sequences"],
  "all request sequences up to the depth bound over a tree with more directories than the path cache holds, and every single remote failure at every remote access of those sequences",
  "Tests exercise the path cache in isolation with hand-picked sequences; none drives the file tree through a history.",
  ["filetree/filetree.go", "filetree/fastcache.go", "requester/makerequest.go", "requester/synccache.go"],
  [m("path cache consulted before walking", "filetree/filetree.go:findPath"), m("request caches", "requester/synccache.go")],
  ["FileTree.ReadDir", "FileTree.Stat", "FileTree.ReadFile"])
p("C05", "Stat, list and read agree about every path",
  "Every entry of a listing - file or directory, at any depth - can be stat-ed, with the same name, kind, mode and size as listed; every listed file reads back with exactly the listed number of bytes, every listed directory can be listed, and a path that is in no listing fails for stat, list and read alike. Every spelling of a path that normalises to the same absolute path gives the same answer, and none resolves outside the volume root.",
  ["inputs", "configurations"],
  "every path of every enumerated tree shape and every spelling from a menu of redundant separators, dot and dot-dot elements",
  "There is no test for stat, read or list on the file tree.",
  ["filetree/filetree.go", "filetree/fileinfo.go", "gocrypt/contentenc/offsets.go"],
  [m("path walk", "filetree/filetree.go:findPath"), m("plaintext file info", "filetree/fileinfo.go")],
  ["FileTree.Stat", "FileTree.ReadDir", "FileTree.ReadFile", "remote paths passed to the FS accessor"])
p("C06", "The path lookup cache is an exact bounded LRU map",
  "After any sequence of stores, lookups and clears, the path cache holds exactly the most recently used entries up to its capacity: a lookup returns the value last stored for exactly that path if and only if it is among them, a successful lookup or store makes the entry the most recently used, and storing a new path at capacity evicts only the least recently used one. Concurrent use behaves as if the operations ran one at a time.",
  ["histories", "schedules"],
  "all operation sequences of any length (fixpoint over implementation states) for capacities 1..4, all interleavings of two or three concurrent users up to the preemption bound",
  "Six hand-written sequences on capacity 3; none refreshes two different non-tail entries before an eviction.",
  ["filetree/fastcache.go"],
  [m("doubly linked list + map", "filetree/fastcache.go:refreshNode"), m("eviction reuses the head node", "filetree/fastcache.go:Store")],
  ["FastCache.Find", "FastCache.Store", "FastCache.Clear"],
  [dict(name="storage/head/last", meaning="map and recency list", where="filetree/fastcache.go")])
p("C07", "Each concurrent request gets the answer for its own item",
  "Whatever requests for files, directories and names run concurrently, with any number of workers and cache clearing at any moment, a request that succeeds returns the complete data the backend returned for exactly that request (same kind, path, name and IV), including when that data is empty. A request never reports success when the backend access that served it reported an error.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings up to the preemption bound of 2-3 clients x 1-2 workers over colliding keys and kinds, with backend errors, empty and partial results",
  "Tests run five goroutines on one key with an always-succeeding backend under whatever schedule the runtime picks.",
  ["requester/makerequest.go", "requester/requester.go", "requester/synccache.go", "requester/complexkey.go"],
  [m("per-kind caches keyed by path or name+IV", "requester/makerequest.go"), m("work tickets", "requester/requester.go:performRequestAndCache")],
  ["Requester.ReadFile", "Requester.ReadDir", "Requester.DecryptName"])
p("C08", "Concurrent and repeated requests share one backend fetch",
  "As long as the backend does not fail and the cache is not cleared, each file, directory and name is fetched from the backend at most once, no matter how many requests for it run concurrently or one after the other. Even when fetches fail, there is never more than one fetch of the same item in progress at a time unless the cache is cleared.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings up to the preemption bound of 2-3 clients x 1-2 workers, with and without backend failures",
  "Tests count calls under one arbitrary schedule.",
  ["requester/makerequest.go", "requester/requester.go", "requester/synccache.go"],
  [m("atomic get-or-insert of an in-progress entry", "requester/synccache.go:GetOrInsert")],
  ["calls received by the backend"])
p("C09", "Every request completes; no schedule wedges the request machinery",
  "As long as individual backend accesses return, every request returns, under every interleaving of clients, workers, cache clearing, backend failures and request timeouts. No history - in particular no request that gave up waiting - leaves a worker stuck or an item permanently unanswerable: requests issued afterwards complete, and succeed if the backend serves them.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings up to the preemption bound with up to two early timeouts and up to two backend failures",
  "Deadlocks, lost wake-ups and leaked workers need a specific schedule or a 20 s stall that no test produces.",
  ["requester/makerequest.go", "requester/requester.go"],
  [m("condition-variable hand-off per worker", "requester/requester.go:performRequestAndCache"), m("20 s give-up", "requester/makerequest.go")],
  ["return of Requester calls"])
p("C10", "Backend failures are neither sticky nor invented",
  "A request fails only if a backend access for that item failed or a timeout expired while the request, or another request it shared its fetch with, was running: a request issued when the backend is healthy succeeds even if an earlier attempt for the same item failed and even if several such requests run concurrently. A failed access is never answered from the cache: each later request makes a new attempt.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings up to the preemption bound of up to 4 clients over items with a remembered failure",
  "The concurrent error tests explicitly accept any error for any request; they never check recovery under contention.",
  ["requester/makerequest.go", "requester/requester.go", "requester/synccache.go"],
  [m("remembered errors are deleted and retried, three attempts", "requester/makerequest.go")],
  ["Requester results"])
p("C11", "Concurrent file-tree operations do not disturb one another",
  "Any set of reads, listings and stats running concurrently on one volume returns, under every interleaving, exactly the results the same operations return when run alone; the data handed to one caller is never changed by later or concurrent operations. The shared state they use is free of data races.",
  ["schedules"],
  "all interleavings up to the preemption bound of 2 concurrent operations (files with differing and equal sizes) with adversarial buffer reuse",
  "No test runs the file tree concurrently; buffer-pool aliasing needs a specific reuse order.",
  ["filetree/decrypt.go", "filetree/filetree.go", "filetree/fastcache.go", "gocrypt/contentenc/bpool.go", "gocrypt/contentenc/content.go", "requester/requester.go"],
  [m("result copied before the pooled buffer is returned", "filetree/decrypt.go:decryptFile"), m("block pools", "gocrypt/contentenc/bpool.go")],
  ["FileTree.ReadFile", "FileTree.ReadDir", "FileTree.Stat"])
p("C12", "No remote content can crash or hang the proxy",
  "Whatever bytes, names, sizes and entry kinds the (untrusted) remote returns - for file contents of any length, directory IV files of any length and value, and arbitrary entry names - each list, stat and read request ends with a result or an error. The proxy never panics and keeps answering other requests correctly afterwards.",
  ["inputs", "fault_sequences"],
  "all file lengths 0..2 blocks+64 with all-zero, header-only and garbage content; directory IV lengths 0..33; all entry names over lengths 0..4096 from a malformed-name menu; entry sizes at integer extremes",
  "Only unPad16 is tested on six malformed inputs.",
  ["filetree/decrypt.go", "filetree/filetree.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/offsets.go"],
  [m("length checks before slicing / cipher calls", "filetree/decrypt.go, gocrypt/nametransform/names.go")],
  ["FileTree.*", "process liveness"])
p("C13", "Name encryption is exact, invertible and never yields unsafe names",
  "Every valid file name (1 to 255 bytes, no slash or NUL, not dot or dot-dot) encrypts to the ciphertext name gocryptfs defines for it (padding, EME, base64 variant, long-name hashing above 255 bytes) and decrypts back to itself under the same directory IV. Decrypting anything else (other spellings of the same base64 text aside) - malformed base64, wrong length, bad padding, or a plaintext that is empty, dot, dot-dot or contains a slash or NUL - fails and never returns a name.",
  ["inputs"],
  "all names up to 2 bytes, all lengths up to 300 with several byte patterns, all padding tails, all base64 malformations by position",
  "Tests cover three padding strings and six garbage blocks; name encryption itself has no test.",
  ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "gocrypt/nametransform/longnames.go", "gocrypt/nametransform/diriv.go"],
  [m("pad16/unPad16", "gocrypt/nametransform/pad16.go"), m("post-decryption name checks", "gocrypt/nametransform/names.go:DecryptName")],
  ["NameTransform.EncryptName", "NameTransform.DecryptName", "NameTransform.EncryptAndHashName"])
p("C14", "The volume unlocks only with the right password and an intact config",
  "The master key is obtained only from a config of the supported version, with only known feature flags, all mandatory flags present and key-derivation parameters at or above the minimum strength, and only with the exact password; the key obtained is then the one that was stored. A wrong password (passwords that scrypt itself cannot tell apart, such as ones differing in trailing zero bytes, aside), or any change to the stored encrypted key or to the key-derivation parameters, yields no key.",
  ["inputs", "configurations"],
  "all 512 feature-flag subsets (and unknown flags), version numbers, every single-byte change of the encrypted key and salt, all derivation parameters around their minimum, a menu of near-miss passwords",
  "Four fixed config files are loaded.",
  ["gocrypt/configfile/config_file.go", "gocrypt/configfile/feature_flags.go", "gocrypt/configfile/scrypt.go", "gocrypt/cryptocore/cryptocore.go"],
  [m("version/flag checks", "gocrypt/configfile/config_file.go:Load"), m("AEAD-wrapped key", "gocrypt/configfile/config_file.go:DecryptMasterKey"), m("parameter floor", "gocrypt/configfile/scrypt.go:validateParams")],
  ["LoadAndDecrypt", "FileTree Init"])
p("C15", "Writing a volume config is crash-atomic",
  "Whenever the machine crashes while a config file is being created or its password changed, afterwards the config path holds either nothing new or the complete new config: an existing config is never lost, truncated or mixed. Once the write has reported success the new config is there and unlocks the unchanged master key with the new password.",
  ["crash_points", "fault_sequences"],
  "every prefix of the system-call history of a create and of a password change, with every subset of unsynced data and renames lost or torn",
  "Tests only create configs on a healthy file system.",
  ["gocrypt/configfile/config_file.go"],
  [m("write to temporary, fsync, rename", "gocrypt/configfile/config_file.go:WriteFile")],
  ["config path after a crash", "WriteFile", "Create"])
p("C16", "Random nonces are never handed out twice",
  "Across all goroutines encrypting concurrently, every nonce is built from random bytes that no other nonce uses, has the full nonce length, and every call completes, however the requests interleave with the refilling of the random buffer.",
  ["schedules", "histories"],
  "all interleavings up to the preemption bound of 2-3 goroutines drawing nonces across buffer-refill boundaries",
  "The test hammers the generator and checks compressibility, which a rare duplicate does not change.",
  ["gocrypt/cryptocore/randprefetch.go", "gocrypt/cryptocore/nonce.go"],
  [m("locked buffer refilled from a channel", "gocrypt/cryptocore/randprefetch.go:read")],
  ["IVGenerator.Get", "nonces at the front of encrypted blocks"])
p("C17", "Remote connections are exclusive, reused, not leaked; losing one is an error",
  "No two concurrent backend calls ever use the same remote connection. A call that reports success delivers the complete file, listing or attributes, even if its connection dies meanwhile. After any history of calls - successes, remote error replies, connections or SFTP sessions dying at any moment - every connection the proxy opened is either idle for reuse or closed, a connection on which a call failed because it is dead is not reused, and a later call over a healthy remote succeeds.",
  ["schedules", "fault_sequences", "histories"],
  "all orders in which a real SSH/SFTP remote can answer up to 3 concurrent calls, with each answer being success, error status or connection loss",
  "The backend package has no tests.",
  ["backend/pool.go", "backend/provider.go"],
  [m("channel of idle connections", "backend/pool.go"), m("ping after failure", "backend/provider.go")],
  ["remote side of the SSH connections", "Provider results"])
p("C18", "The proxy is strictly read-only",
  "Every request that would change anything - open for writing, creating, appending or truncating, setstat, rename, remove, rmdir, mkdir, symlink - is refused: it is never answered with success, and with an error status whenever it names a path. No sequence of client requests makes the proxy issue anything but read accesses to the remote.",
  ["inputs", "histories"],
  "every SFTP request type and every combination of open flags on every kind of path, in sequences with reads, with all operations that reach the remote recorded",
  "The handlers package has no tests.",
  ["handlers/decrypt.go", "backend/provider.go", "main.go", "packetguard.go"],
  [m("mutating handlers return errors", "handlers/decrypt.go")],
  ["SFTP replies", "requests arriving at the remote SFTP server"])
p("C19", "The SFTP view is complete and exact for any paging and any read ranges",
  "Through the SFTP protocol a client sees exactly the decrypted volume: a directory of any number of entries is delivered completely, each entry once, whatever the paging, and ends with an end-of-directory reply; reading any file in any order of offset/length ranges yields exactly those plaintext bytes, short only at end of file or at the protocol's 32 KiB per reply, and end-of-file beyond it. Requests for missing paths, and requests naming the wrong kind of object, are answered with an error. This holds for requests of every size the protocol allows and however the bytes of requests are cut into pieces on the way.",
  ["inputs", "histories"],
  "directory sizes around every multiple of the page size, all sequences of page sizes up to 5 with all listing sizes up to 12, all read ranges from a boundary menu, every request at sizes up to 256 KiB, request streams cut at every byte",
  "The handlers package has no tests.",
  ["handlers/decrypt.go", "handlers/proxy.go", "filetree/filetree.go", "main.go", "packetguard.go"],
  [m("ListAt paging", "handlers/proxy.go:listerat"), m("ReaderAt over the decrypted bytes", "handlers/decrypt.go:Fileread")],
  ["SFTP replies"])
p("C20", "Only the configured user and password get in",
  "A client is let in if and only if it presents exactly the configured proxy user name together with exactly the configured proxy password; every other combination and every other authentication method is rejected, and an unauthenticated client is served nothing.",
  ["inputs", "histories"],
  "all combinations of near-miss user names and passwords, all authentication methods, sequences of attempts",
  "The main program has no tests.",
  ["main.go"],
  [m("password callback", "main.go:main")],
  ["SSH authentication result of the running proxy"])
p("C21", "The proxy never talks to an unverified remote or starts half-configured",
  "The proxy starts serving only if every required configuration field is filled in, the remote's host key matches the known-hosts file for its address, and the passphrase unlocks the volume; in every other case it terminates with an error without serving clients. It never sends anything beyond the key exchange to a remote whose host key is not the known one.",
  ["configurations", "inputs"],
  "every subset of missing required fields, every host-key situation (matching, other key, unknown host, empty file, revoked), right and wrong passphrase",
  "Config.Validate is tested in isolation but nothing checks that start-up uses it; host key checking has no test.",
  ["main.go", "config/config.go", "backend/pool.go"],
  [m("known_hosts callback", "main.go"), m("required-field validation", "config/config.go:Validate")],
  ["exit status and listening socket of the running proxy", "remote SSH server"])
p("C22", "One client cannot take the service away from others",
  "Whatever one client does - connect and stay silent, fail authentication, disconnect at any point, send malformed channel or subsystem requests, or leave sessions open - the proxy keeps running and other clients can connect and are served correctly, and so is a further session on the same connection as long as the client's requests on it were well-formed SSH.",
  ["histories", "fault_sequences"],
  "all pairs of misbehaviours from the menu at every stage of the connection, connections reset with answers outstanding, all sequences of 3 uses of one connection, followed by a well-behaved client",
  "The main program has no tests.",
  ["main.go"],
  [m("accept loop and per-connection goroutines", "main.go")],
  ["a well-behaved client's SFTP session"])
p("C23", "SSH key loading asks, retries and fails exactly as specified",
  "An unencrypted private key loads without asking; an encrypted one is unlocked by the first correct passphrase among at most three prompts, and a failure to read a passphrase ends the attempt at once with that error. Three wrong passphrases end with an incorrect-password error after exactly three prompts, and a file that is not a usable private key gives an error, never a crash.",
  ["inputs", "histories"],
  "all answer sequences up to length 4 over {right, wrong, empty, read failure} for every key type, and every malformed key file from a menu including all truncations",
  "Tests sample four answer sequences on one key.",
  ["config/config.go"],
  [m("three-attempt loop", "config/config.go:LoadSSHKey")],
  ["Config.LoadSSHKey"])
p("C24", "Block encryption and offset arithmetic are exact for every range",
  "Splitting any plaintext or ciphertext range into blocks covers it exactly once and in order, size translation between plaintext and ciphertext is mutually inverse on every valid size, and merging new data into an old block yields the bytewise overlay. Encrypting any number of blocks (including the parallel path) produces, under every interleaving, well-formed blocks in order that decrypt to the original plaintext.",
  ["inputs", "schedules"],
  "all offsets and lengths over several blocks for small block sizes, all block counts 0..70, all interleavings up to the preemption bound of the parallel encryption",
  "Twelve ranges are sampled; encryption and merging have no test.",
  ["gocrypt/contentenc/content.go", "gocrypt/contentenc/offsets.go", "gocrypt/contentenc/intrablock.go", "gocrypt/contentenc/bpool.go"],
  [m("range splitting", "gocrypt/contentenc/offsets.go:ExplodePlainRange"), m("parallel block encryption", "gocrypt/contentenc/content.go:EncryptBlocks")],
  ["ContentEnc methods"])
p("C25", "Only ciphertext reaches the remote; no secret leaks to disk or output",
  "Whatever clients request, the remote is sent neither plaintext names nor plaintext content: every path it is asked for lies under the configured root and consists of encrypted names and the fixed names of gocryptfs' own files. No password, passphrase, key or file content is written in the clear to any file, log or socket other than the answer to the client who asked for it, and passphrases are not shown while they are typed.",
  ["inputs", "histories", "faults"],
  "all requests of the menu on every path up to depth 3 over names of every kind, each access of each request failing in turn; every write of the running program over whole sessions, for every debug setting and kind of key",
  "Tests replace the remote by fakes that answer by fixed paths, and never run the program.",
  ["filetree/filetree.go", "main.go", "config/config.go", "backend/provider.go"],
  [m("path encryption before every access", "filetree/filetree.go"), m("password callback and logging", "main.go"), m("passphrase prompt", "config/config.go:LoadSSHKey")],
  ["SFTP requests", "the program's files, output and prompts"])
p("C26", "Outages of the remote are survived and never corrupt an answer",
  "While the remote is unreachable, refuses the proxy, stalls, fails requests or loses connections at any moment, every client request that the remote fails ends with an error or with exactly the right data - never with partial or wrong data -, requests that do not depend on a stalled access are answered meanwhile, sessions stay up and the proxy keeps running. Once the remote is back, every request succeeds again without a restart, after at most as many failed requests as there were connections lost.",
  ["faults", "histories", "schedules"],
  "every fault at every event of every request, lasting 1, 3 or all events, with 1 or 3 idle connections; all sequences of 3 conditions of the remote; every event held back; 2-4 clients at once",
  "Tests use fakes for the remote; the program is never run against one that fails.",
  ["backend/provider.go", "backend/pool.go", "requester/makerequest.go", "requester/requester.go", "handlers/decrypt.go", "main.go"],
  [m("connections tested after a failure", "backend/provider.go:ReadFile"), m("failed entries removed from the cache", "requester/makerequest.go:makeRequest"), m("one error per failed request", "handlers/decrypt.go")],
  ["a client's SFTP session"])
p("C27", "What has ended leaves nothing behind",
  "Whatever a request, an SFTP session, an SSH connection or an access to the remote occupied in the proxy - goroutines, sockets, open files, memory - is released once it has ended, however it ended: answered, refused, failed because of the remote, closed by either side in the middle of something, or vanished. Any number of repetitions of the same requests, sessions, logins (successful or not) and remote failures leaves the proxy with as many goroutines and open files, and about as much memory, as a few of them. (What a failed opening of a file or directory occupies may stay until its session ends.)",
  ["histories", "faults", "inputs"],
  "about 100 ways for clients to come and go, 11 ways to end a session on a lasting connection, 21 requests and visits up to 3000 times, every fault of the remote at every kind of event for 60 requests",
  "Tests run single requests against fakes and never look at what the program still holds afterwards.",
  ["main.go", "packetguard.go", "backend/provider.go", "backend/pool.go", "requester/makerequest.go", "requester/requester.go", "filetree/fastcache.go", "handlers/decrypt.go"],
  [m("session goroutines end with the channel", "main.go:handleChannel"), m("connections closed or put back", "backend/pool.go"), m("failed entries removed from the cache", "requester/makerequest.go:makeRequest"), m("bounded path cache", "filetree/fastcache.go:Store")],
  ["a client's SFTP session"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
