#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=["aiootp/" + f for f in files],
            mechanism=[dict(name=n, where="aiootp/" + w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where="aiootp/" + w) for n, m, w in state],
            observe_at=observe, hook_needed=False)))

GF = ["asynchs/guards/concurrency_guard.py", "asynchs/guards/policies.py",
      "asynchs/guards/state_machine.py", "asynchs/guards/manager.py"]
GM = [("policy protocol (line + observers deques)", "asynchs/guards/policies.py"),
      ("guard context manager", "asynchs/guards/concurrency_guard.py"),
      ("per-target manager", "asynchs/guards/manager.py")]
GS = [("queue", "guards in line, in order of arrival", "asynchs/guards/concurrency_guard.py"),
      ("observers", "left end: running shared guards; right end: exclusive guards", "asynchs/guards/concurrency_guard.py")]

prop("G01", "Exclusive contexts never overlap any other context",
     "While an exclusive context is open on a shared resource, no other context of any kind is open on that resource, and an exclusive context does not open while shared contexts are still open. This holds for guards built directly on a common pair of queues and for guards handed out per target by a manager, used from threads or from async tasks.",
     ["schedules", "programs"],
     "all interleavings of up to the explored number of threads/tasks, at every atomic step of entering and leaving, for every mix of exclusive and shared contexts",
     "The tests run a few dozen contexts under whatever schedule the interpreter happens to choose; a race that needs a preemption between two particular steps is not reached.",
     GF, GM, ["open/close events of contexts"], GS)
prop("G02", "Contexts open in line order and every waiting one gets its turn",
     "A context that is already waiting in line when another arrives opens before it, except that shared contexts may overlap one another freely; contexts placed in the line by hand open at the position they were given. As long as every open context is eventually closed, every context in line eventually opens.",
     ["schedules", "programs"],
     "all interleavings and arrival orders of exclusive, shared and hand-queued contexts",
     "Order and progress are statements about every schedule; tests sample one arrival order with real sleeps.",
     GF, GM, ["open/close events of contexts, waiting periods"], GS)
prop("G03", "Per-target guards are independent and leave nothing behind",
     "Contexts on different targets never delay each other, while contexts on equal targets follow one common line. When the last context using a target has ended, in whatever way it ended, the manager keeps no record of that target.",
     ["schedules", "programs", "fault_sequences"],
     "all interleavings of arrivals and departures on one or more targets, including contexts that end by an error or are refused",
     "A leaked or prematurely dropped target record depends on the interleaving of the last leaver with a newcomer.",
     GF, GM, ["open/close events per target", "the manager's target table when idle"],
     [("targets", "live targets and their lines", "asynchs/guards/manager.py")])
prop("G04", "A failing, cancelled or misused context never breaks the line",
     "One guard object opens at most one context; reuse is refused with an error and does not disturb the contexts of other guards. An exception raised inside a context leaves it unchanged and closes it, and a task cancelled while waiting for, holding or leaving a context gives up its place, so that everybody behind it is still served in order and exclusively.",
     ["schedules", "fault_sequences"],
     "cancellation or failure at every suspension point of every participant, reuse of a guard in each of its states",
     "Cancellation points are schedule dependent; the suite never cancels a waiting task.",
     GF, GM, ["errors seen by callers", "open/close events of the remaining contexts"],
     [("use tracker", "unused, pending, running, done or faulted", "asynchs/guards/state_machine.py")])

DF = ["databases/sync_database.py", "databases/async_database.py", "databases/database_properties.py"]
DM = [("cache/manifest/file protocol", "databases/sync_database.py"),
      ("async twin of the protocol", "databases/async_database.py"),
      ("listing, membership, item access", "databases/database_properties.py")]
DS = [("cache", "decrypted tag values held in memory", "databases/database_properties.py"),
      ("manifest", "tags and metatags known to the database", "databases/database_properties.py"),
      ("files", "one encrypted file per saved tag plus one manifest file", "databases/sync_database.py")]
prop("D01", "Within a session, tags behave as a write-back map",
     "In one open database a tag reads as the value last set for it, or, once that unsaved change has been dropped, as the value last saved, or else as absent in the documented way; byte strings and JSON values come back equal. Membership, length, truthiness and tag listings always agree with the same history of sets, saves, pops, deletions, rollbacks and cache clearings, and every operation touches only the tag it names.",
     ["histories", "inputs"],
     "all sequences of tag operations over several tags, all option combinations, sync and async",
     "Tests exercise each operation in a handful of fixed orders; the meaning of a read depends on the whole history.",
     DF, DM, ["return values, errors, listings, membership"], DS)
prop("D02", "What was saved is exactly what a later open sees",
     "After a full save, opening the database again with the same key and directory, by the sync or the async class and with or without preloading, lists exactly the tags and metatags of that save and reads equal values. Changes that were never saved are not visible to a later opening, and saving a single tag changes nothing but that tag's stored value.",
     ["histories", "configurations"],
     "all sequences of tag operations interleaved with saves and reopenings by either class",
     "Each history of partial saves and reopenings is a different case; tests cover a few.",
     DF, DM, ["values and listings seen by a fresh opening"], DS)
prop("D03", "Metatag databases are separate and live with their parent",
     "Operations on the tags of a metatag never affect its parent's or a sibling's tags, even under equal names, and a name always reaches the same sub-database, including when several tasks ask for it at once. Saving, reloading, clearing caches and deleting a database act on its metatags at every depth, and deleting one metatag removes that sub-database only.",
     ["histories", "schedules"],
     "all sequences of operations on a small tree of databases, and concurrent first use of one metatag",
     "Isolation between namespaces is a statement about all pairs and all histories.",
     DF, DM, ["values, listings and files of every database of the tree"], DS)
prop("D04", "Deleting a database removes its files and only its files",
     "After a database is deleted, neither its manifest, nor the file of any tag it listed, nor those of any of its metatags remain in its directory. Every other file in the directory, whatever its name, and every other database stored there, is left untouched. Objects of a deleted database, or of its metatags, change no files any more.",
     ["histories", "configurations"],
     "all histories before the deletion, with foreign files and other databases in the same directory",
     "Tests check the presence of a few known files after one history.",
     DF, DM, ["directory contents before and after"], DS)
prop("D05", "Stored data is never read as something it is not",
     "If stored files are altered, cut short, swapped with other tags' or other databases' files, or left half-written by a crash at any step of a save, then opening and reading either raise an error or return a value that was stored under exactly that tag of that database. Tags whose files are intact stay readable once the database opens.",
     ["crash_points", "fault_sequences", "inputs"],
     "every crash point of every save, every file replaced by every other file, cut at any length, or with any byte changed",
     "No test crashes a save or permutes stored files.",
     DF + ["databases/dbkdf.py"], DM, ["values or errors of a fresh opening"], DS)
prop("D06", "A profile opens only for exactly its credentials",
     "Opening a profile again with the same credentials, salt, settings and directory reaches the same stored data, from either class; changing any one of the username, passphrase, salt, aad, extra credentials, cost settings or the directory's own device salt never reaches it. Deleting a profile removes its data and its salt, and affects no other profile.",
     ["histories", "inputs"],
     "all single-field differences between credentials, and histories of creating, saving, deleting and reopening profiles",
     "Tests open one profile with one set of credentials.",
     ["databases/profile_tokens.py"] + DF, [("profile token derivation", "databases/profile_tokens.py")],
     ["values seen by a reopened profile", "files in the directory"])

prop("D07", "Tasks sharing a database do not lose each other's data",
     "Calls that tasks make at the same time on one async database succeed, and each tag behaves as if the calls on it were made one after another, whatever happens to other tags: a value set while the tag is queried, loaded into the cache, saved, dropped from the cache or rolled back by other tasks stays set until a later call removes it, and is never replaced by an older one. A value set while the tag is popped is either what the pop returns or stays. Saving the whole database succeeds while other tasks set, pop and roll back tags, and after a last save a reopened database has the last values.",
     ["schedules", "histories"],
     "random programs of up to four tasks on up to three tags, with the order of file operations and task switches drawn at random",
     "Tests use a database from one task.",
     DF, [("async database methods", "databases/async_database.py")], ["returned values", "values seen by a reopened database"])

prop("D08", "Loading a database loads all that is stored and tells of what is lost",
     "After a call that loads a database's tags, its metatags or all of it, or that opens it or a profile with preloading, the values stored under the tags it covers - those of metatags, and of their metatags, included, whether or not they are open already - are found by bracket lookup, and values loaded before stay. If the file of a covered tag that is not loaded yet is gone, the call raises a lookup error, unless it is silent, which opening is unless told otherwise and loading is only when told so: then everything else is loaded. Without preloading, no value is loaded. Loading changes no file.",
     ["histories", "inputs"],
     "all subsets of loaded values and lost files of three nested databases, every call, silent, not silent and by default",
     "Tests load databases without metatags.",
     ["databases/sync_database.py", "databases/async_database.py"], [("load_database", "databases/sync_database.py"), ("aload_database", "databases/async_database.py")], ["values, errors, files"])
prop("P01", "Salt files keep their content under concurrent use",
     "For every interleaving of creating, reading, updating and deleting one salt file by threads or async tasks, a read returns one complete salt that was current at some moment during the read, or fails only because the file does not exist, and no combination of these calls hangs. Concurrent first requests for the salt of one key all end up with one and the same salt.",
     ["schedules", "histories"],
     "all interleavings of a few concurrent salt-file operations, at every file-system step, without the privilege to bypass file permissions",
     "Tests use salt files one call at a time.",
     ["_paths.py"], [("salt file access under guards", "_paths.py")], ["returned salts and errors, final file content"],
     [("salt file", "content and permission bits", "_paths.py")])
prop("P02", "Salt files are locked at rest and never short",
     "After every salt-file call that leaves the file in place, successful or not, the file has no permission bits set. A salt shorter than 32 bytes is never stored and never returned, failed calls do not change an existing salt and no call leaves another file behind, a program that ends in the middle of a call leaves the former or the new salt in place, and the location of a salt depends on the directory and the key alone.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of salt-file calls including failing ones, all salt lengths around the limit",
     "The suite checks the bits after a few successful calls.",
     ["_paths.py"], [("salt file access", "_paths.py")], ["permission bits, content, errors, paths"])

CF = ["ciphers/cipher_interface.py", "ciphers/chunky_2048.py", "ciphers/slick_256.py", "ciphers/padding.py",
      "ciphers/stream_hmac.py", "ciphers/key_bundle.py", "ciphers/synthetic_iv.py", "ciphers/ciphertext_formatting.py",
      "ciphers/dual_output_shake_cipher.py", "ciphers/shake_permute_cipher.py", "ciphers/cipher_kdfs.py"]
CM = [("encrypt/decrypt flow", "ciphers/cipher_interface.py"), ("authentication", "ciphers/stream_hmac.py"),
      ("padding and timestamps", "ciphers/padding.py")]
prop("E01", "Decryption inverts encryption for every message and interface",
     "For both ciphers, every key, salt, aad and every plaintext of any length, decrypting what was encrypted with the same values gives back the equal plaintext. This holds for byte strings, JSON values and tokens, and for every combination of sync, async and streaming interfaces on the two sides.",
     ["inputs", "configurations", "programs"],
     "all plaintext lengths around every block boundary, all interface pairs, both ciphers, generated or given salts and ivs",
     "Tests round-trip a few lengths within one interface.",
     CF + ["ciphers/cipher_streams.py", "ciphers/decipher_streams.py"], CM, ["decrypted values"])
prop("E02", "Anything but the exact message and context is rejected",
     "Decryption returns a plaintext only if key, aad, salt and every part of the ciphertext are those of one encryption; if any of them differs in any bit, or the ciphertext is cut, extended, or spliced from others, it raises an authentication or size error and returns nothing. A ciphertext of one cipher is never accepted by the other.",
     ["inputs", "fault_sequences"],
     "all single changes of every field of the message and its context, all truncations, extensions and splices at block granularity",
     "Tests flip a few fixed bits.",
     CF, CM, ["errors and returned plaintext"])
prop("E03", "Time limits are enforced exactly",
     "With a time-to-live given, a message, token, stored tag or stream whose age in the scheme's clock units exceeds it is refused, with an error reporting by how much, and one whose age does not exceed it is accepted; without one, age is never a reason for refusal. The order in which a stream's data is supplied and asked for never lets expired plaintext out.",
     ["inputs", "histories", "schedules"],
     "all ages and limits around equality, all call orders on streams",
     "Tests sleep a second or two and try one age.",
     ["ciphers/padding.py", "ciphers/decipher_streams.py", "ciphers/cipher_interface.py", "asynchs/clocks.py"], CM,
     ["errors, reported excess, plaintext"])
prop("E04", "No two encryptions share key material",
     "Every encryption call uses a fresh salt unless one is given, a fresh iv and a fresh inner randomness, so that encrypting the same plaintext again, even with the same key, salt and aad, yields a ciphertext whose iv and body are unrelated; a given salt is used as given. No object that has encrypted can be made to encrypt a second message under the same key material.",
     ["histories", "programs"],
     "all sequences of encryption calls on shared cipher objects, by threads and tasks",
     "Uniqueness is a statement about all pairs of encryptions.",
     CF + ["ciphers/cipher_streams.py"], CM, ["salts, ivs and bodies of ciphertexts"])
prop("E05", "Ciphertext length reveals only the padded size",
     "The length of a ciphertext is the fixed header plus the smallest number of whole blocks that holds the plaintext with its inner header and at least one byte of padding; no other property of the plaintext influences it. Inputs whose length is not of that form are refused by decryption before anything is deciphered.",
     ["inputs"],
     "all plaintext lengths over several blocks, all ciphertext lengths",
     "Tests check a few sizes.",
     ["ciphers/padding.py", "ciphers/ciphertext_formatting.py", "ciphers/cipher_interface.py"], CM, ["ciphertext lengths, errors"])

SF = ["ciphers/cipher_streams.py", "ciphers/decipher_streams.py", "ciphers/cipher_stream_properties.py", "ciphers/stream_hmac.py"]
SM = [("encrypting stream", "ciphers/cipher_streams.py"), ("decrypting stream", "ciphers/decipher_streams.py"),
      ("block ids and final tag", "ciphers/stream_hmac.py")]
SS = [("buffers", "pending plaintext/ciphertext blocks", "ciphers/cipher_stream_properties.py"),
      ("finalizing", "whether the stream has been closed", "ciphers/cipher_stream_properties.py")]
prop("E06", "Ciphers of other settings carry every message and refuse each other's",
     "A cipher made with other sizes of blocks, minimum padding, timestamps, synthetic keys, authentication codes, block identifiers, salts and initialization vectors, or another name, identifier or epoch, decrypts every message and stream that an equally set one encrypted to exactly what was given, whatever its length and last bytes; a ciphertext has exactly the sizes set, with the fewest padding frames that hold header, message and padding length, and a changed one is refused. Ciphers that differ in any of these settings refuse each other's ciphertexts. Settings that leave less than sixteen bytes for plaintext, exceed what the hash can absorb or emit, split unevenly or contradict each other are refused.",
     ["inputs"],
     "all settings that differ from the shipped ones in one or two respects (thorough: three), messages of all lengths around the edges of frames",
     "Tests change single settings and use one short message.",
     ["ciphers/padding.py", "ciphers/dual_output_shake_cipher_config.py", "ciphers/shake_permute_cipher_config.py", "ciphers/chunky_2048_config.py", "ciphers/slick_256_config.py", "ciphers/cipher_streams.py", "ciphers/decipher_streams.py"],
     [("settings", "ciphers/dual_output_shake_cipher_config.py"), ("padding", "ciphers/padding.py")], ["ciphertexts, plaintexts, errors"])
prop("S01", "Streams carry the same bytes however they are cut",
     "However the plaintext is split over buffering calls on the encrypting side, and however whole packets are grouped on the decrypting side and interleaved with reading, the decrypting stream yields exactly the plaintext, in order, each byte once, and the final tags of both sides agree. This also holds when buffering calls run concurrently: each call's data stays contiguous and calls take effect in the order they were made.",
     ["inputs", "histories", "schedules"],
     "all splits of messages of up to several blocks, all groupings of packets, all interleavings of buffering and reading",
     "Tests use a few fixed chunk sizes.",
     SF, SM, ["yielded plaintext, final tags"], SS)
prop("S02", "Forged or misplaced packets are refused without effect",
     "A decrypting stream accepts a packet only if it is exactly the next packet of the stream; any altered, repeated, skipped or reordered packet is refused with an error that carries the packet and the unread rest, and leaves the stream as if the packet had not been supplied. Supplying the right packets afterwards completes the stream normally.",
     ["histories", "fault_sequences"],
     "all sequences of good and bad packets up to several packets",
     "Tests corrupt one packet at one position.",
     SF, SM, ["errors, carried failure state, plaintext"], SS)
prop("S03", "A closed stream stays closed and an open one has no verdict",
     "After finalizing starts, a stream accepts no more data and cannot be finalized again, but says so rather than wait. An encrypting stream's tag becomes available only when finalizing has completed, a decrypting stream's only when finalizing has started; before that, asking for the tag or checking one is refused. A stream that was cut short, extended or altered anywhere fails the final tag check.",
     ["histories", "fault_sequences"],
     "all sequences of buffer, read, finalize and tag operations",
     "Tests try a few orders.",
     SF, SM, ["errors, tags"], SS)
prop("M01", "Authenticators and key bundles follow their one-way protocol",
     "A message authenticator accepts exactly one direction, never changes it, and never updates after it has been finalized; results and comparisons exist only after finalizing, block identifiers outside the allowed sizes are refused, and comparisons succeed only for the exact value. A key bundle serves one authenticator only, an iv may be given only for decrypting, and keys, salts and ivs of wrong size or type are refused; a refused call changes nothing.",
     ["histories", "inputs"],
     "all sequences of calls on an authenticator and its key bundle up to the explored length, sync and async",
     "Tests try individual misuse cases.",
     ["ciphers/stream_hmac.py", "ciphers/key_bundle.py", "ciphers/synthetic_iv.py", "ciphers/stream_junction.py"],
     [("authenticator state machine", "ciphers/stream_hmac.py"), ("key bundle", "ciphers/key_bundle.py")],
     ["errors, digests, block ids"])

prop("K01", "Key exchanges agree exactly when the transcripts agree",
     "In the two- and three-key exchanges, client and server derive the same key material exactly when each received what the other sent; if any public key of the exchange was replaced, the derived keys differ. Each exchange object runs its exchange once only, and keys of wrong type are refused.",
     ["histories", "fault_sequences", "inputs"],
     "all substitutions of any subset of exchanged public keys, all call orders on an exchange object",
     "Tests run honest exchanges.",
     ["keygens/curve_25519/double_diffie_hellman_client.py", "keygens/curve_25519/double_diffie_hellman_server.py", "keygens/curve_25519/triple_diffie_hellman_client.py", "keygens/curve_25519/triple_diffie_hellman_server.py", "keygens/curve_25519/x25519.py"],
     [("two-key exchange", "keygens/curve_25519/double_diffie_hellman_client.py"), ("three-key exchange", "keygens/curve_25519/triple_diffie_hellman_client.py")],
     ["derived keys, errors"])
prop("K02", "Password hashes verify exactly what was hashed",
     "Verifying a password hash succeeds if the passphrase and associated data are those that were hashed and the hash string is unchanged, and fails with the documented error if any of them differs in any bit or the hash is older than the allowed time. The outcome does not depend on whether hashing and verifying are sync, async, or run in other processes or threads.",
     ["inputs", "configurations"],
     "all single-field differences, all settings at and around their limits, ages around the limit",
     "Tests verify a few hashes.",
     ["keygens/passcrypt/interface.py", "keygens/passcrypt/session_init.py", "keygens/passcrypt/sessions_manager.py", "keygens/passcrypt/hash_format.py"],
     [("hash and verify", "keygens/passcrypt/interface.py")], ["verification verdicts"])
prop("K03", "Password hash strings decode to what was encoded, within limits",
     "A password hash decodes to exactly the timestamp, settings, salt and tag it was made from, for all permitted settings; settings, salts, tags or passphrases outside the permitted ranges are refused when hashing and when decoding. A hash that asks for more memory, iterations or cores than the verifier's limits is refused before any of that work is done.",
     ["inputs", "configurations"],
     "all settings at and around every limit, hash strings of any length and content",
     "Tests check a few settings.",
     ["keygens/passcrypt/hash_format.py", "keygens/passcrypt/session_init.py", "keygens/passcrypt/config.py"],
     [("hash format", "keygens/passcrypt/hash_format.py")], ["decoded fields, errors"])
prop("K04", "Package signatures accept exactly the signed package",
     "A signed package summary verifies if and only if it is unchanged, was signed by the expected key, and every listed file has exactly the content that was signed. A signer never hands out a summary whose signature does not match its current content, and refuses to work before its database and signing key are set. A signer opened later with the same credentials finds the key, credentials and signatures that were saved; one opened with any other does not.",
     ["histories", "inputs", "fault_sequences"],
     "all orders of adding files, updating metadata and signing, every field or file altered afterwards",
     "Tests sign and verify one package.",
     ["keygens/package_signer.py", "keygens/package_verifier.py"],
     [("signer", "keygens/package_signer.py"), ("verifier", "keygens/package_verifier.py")], ["verification verdicts, errors, summaries"])
prop("K05", "Derived keys depend on exactly the sequence of inputs",
     "A key derivation object's outputs are a function of its domain, key, all data it absorbed in order, and the arguments of the call, and of nothing else; any difference in these, including where one input ends and the next begins, gives unrelated outputs. Producing output never changes the object, copies evolve independently, and sync and async calls agree.",
     ["histories", "inputs"],
     "all sequences of update, copy and output calls up to the explored length, all ways to cut the same bytes into inputs",
     "Tests compare a few derivations.",
     ["keygens/domain_kdf.py", "generics/hashing.py", "generics/canon.py"],
     [("domain separated KDF", "keygens/domain_kdf.py")], ["derived keys"])
prop("K06", "Signing and exchange key objects hold one key for life",
     "A curve key object takes one secret or public key once and then never changes or loses it; importing again or using a missing secret key is refused. Signatures verify only for the exact message, signature and key, exchanges commute, and exported bytes import to an equal key.",
     ["histories", "inputs"],
     "all orders of generate, import, sign, verify and exchange calls on one object, every single change to message, signature or key",
     "Tests use each call once in the usual order.",
     ["keygens/curve_25519/shared_interface.py", "keygens/curve_25519/ed25519.py", "keygens/curve_25519/x25519.py"],
     [("key objects", "keygens/curve_25519/shared_interface.py")], ["errors, keys, signatures, shared secrets"])

prop("K07", "Password hashing does the work its settings ask for",
     "Hashing or verifying a passphrase starts one worker for each core asked for, and each of them fills its share of the megabytes asked for with hash output, works over all of it from both ends and then absorbs all of it cpu + 2 times, for every permitted setting and every interface, sync or async. A higher cost setting never makes a hash cheaper.",
     ["inputs", "configurations"],
     "combinations of costs: odd and even cpu up to the largest, megabytes that divide evenly by the cores and that do not, more cores than megabytes, up to 130 (thorough: 300) megabytes",
     "Tests only use the smallest costs, and only look at the resulting hash.",
     ["keygens/passcrypt/session_init.py", "keygens/passcrypt/sessions_manager.py", "keygens/passcrypt/interface.py"],
     [("hash", "keygens/passcrypt/interface.py")], ["hash input and output per worker", "peak memory"])
prop("I01", "Keyed permutations are bijections with exact inverses",
     "For every permitted size and key, each integer permutation maps its whole domain one-to-one onto itself and its inverse undoes it exactly, whatever internal state stepping it has reached; stepping repeats no output for an input until the whole domain has been stepped through. Equal keys and histories give equal permutations, and a changed step increment changes the steps that follow. Sequence identifiers built on it are therefore distinct for distinct numbers and read back to the same number.",
     ["inputs", "configurations", "histories"],
     "the whole domain for one-byte sizes and any key, boundary and random values of larger sizes, all step sequences",
     "Tests try random values.",
     ["_permutations/affine_permutation.py", "_permutations/affine_xor_chain.py", "_permutations/fast_affine_xor_chain.py", "randoms/ids/sequence_id.py"],
     [("affine permutation", "_permutations/affine_permutation.py"), ("affine-xor chain", "_permutations/affine_xor_chain.py")],
     ["permuted and inverted values"])
prop("I02", "Generated identifiers are unique, readable and ordered",
     "Identifiers from one generator differ from each other, made by any number of threads, even if up to 256 are made within one tick of the clock, and carry the generator's node number. Reading an identifier returns the fields it was made from, reading a permuted one needs exactly the generator's key, and sorting by the documented sort key follows creation time.",
     ["schedules", "histories", "inputs"],
     "all interleavings of concurrent creation, frozen or advancing clocks, all sizes",
     "Tests create identifiers in one thread with a running clock.",
     ["randoms/ids/raw_guid.py", "randoms/ids/guid.py"], [("raw identifiers", "randoms/ids/raw_guid.py"), ("permuted identifiers", "randoms/ids/guid.py")],
     ["identifiers and their fields"])

prop("N01", "Canonical encoding of sequences is injective and strictly parsed",
     "Packing is one-to-one: different sequences of byte strings, block sizes, pad bytes or length widths never give the same encoding, the result has the documented layout and is a multiple of the block size, and unpacking gives back the sequence. Unpacking anything whose declared counts, lengths, block size or padding do not fit the data raises the canonical encoding error and nothing else.",
     ["inputs"],
     "all small sequences and parameters exhaustively, all single byte changes and truncations of encodings",
     "Tests unpack a few encodings.",
     ["generics/canon.py"], [("pack/unpack", "generics/canon.py")], ["encodings, decoded items, errors"])
prop("N02", "Byte and number encodings round-trip",
     "Every byte string survives conversion to its url-safe and phrase forms and back, non-negative integers survive conversion to and from any table of at least two symbols, other numbers and bases and symbols outside the table being refused, filenames are made of the documented alphabet, distinct for distinct values of one length and read back to the value without its leading zero bytes, and reading a file gives back what was written or appended. Sync and async versions agree.",
     ["inputs"],
     "all short inputs exhaustively, lengths around every padding boundary",
     "Tests convert a few random values.",
     ["generics/byte_io.py", "generics/transform.py"], [("encodings", "generics/byte_io.py"), ("base conversion", "generics/transform.py")],
     ["encoded and decoded values"])
prop("N03", "Clocks measure in whole units and judge age consistently",
     "For every unit and epoch, a timestamp reads back the time at which it was made in whole units, time deltas are the difference between now and then, and a timestamp is judged expired exactly when its age exceeds the given limit, reporting the excess. Sync and async versions agree.",
     ["inputs", "configurations"],
     "all units, times at and around unit boundaries, limits around the age",
     "Tests run at the present time only.",
     ["asynchs/clocks.py"], [("clock", "asynchs/clocks.py")], ["timestamps, deltas, errors"])
prop("N04", "Frozen and typed containers keep what they hold",
     "An attribute of a frozen container, once set, can be neither changed nor removed by any operation the container offers; a refused assignment, deletion or clearing leaves the contents as they were, and a refused update has applied the items before the refused one. Typed containers never hold a value of a wrong type. Frozen and other containers behave as mappings with consistent length, iteration, membership and item access, and displays of masked containers do not reveal values unless debugging is on.",
     ["histories", "inputs"],
     "all sequences of assignment, deletion, update, clear and lookup up to the explored length, for every container type",
     "Tests try single assignments on each type.",
     ["commons/slots.py", "commons/typed_slots.py", "commons/namespaces.py", "commons/configs.py", "commons/instances.py"],
     [("frozen and typed attribute protocol", "commons/slots.py"), ("namespaces", "commons/namespaces.py")], ["contents, errors, displays"])
prop("N05", "Work sent to processes or threads comes back exactly once",
     "A function run in another process or thread returns its result unchanged, whatever its size, and gathered results come back in the order the functions were given; a failing function makes the caller see a failure rather than a wrong result or an endless wait. This holds for sync functions, and for async functions given to async callers.",
     ["inputs", "schedules", "fault_sequences"],
     "all result sizes around the transport buffer, all completion orders, failing functions at every position",
     "Tests return small results.",
     ["asynchs/concurrency_interface.py", "asynchs/processes.py", "asynchs/threads.py"],
     [("new/submit/gather", "asynchs/concurrency_interface.py")], ["results, errors"])
prop("N06", "Generator tools neither lose, repeat nor reorder data",
     "Batching, resizing, unpacking, zipping, cycling, collating and counting generators yield exactly the items their inputs define, in order, for every input length and permitted parameter, including empty inputs, and their sync and async forms agree. They consume their sources lazily, never taking items past those needed.",
     ["inputs"],
     "all short input sequences and parameters exhaustively",
     "Tests use a few inputs.",
     ["_gentools.py"], [("generators", "_gentools.py")], ["yielded items"])
prop("N07", "Ignored exceptions and handlers behave as the with statement says",
     "A context that ignores exceptions swallows exactly those of the given types and their subtypes, unless its handler for them returns something false; all others pass unchanged. Of the handlers given to it or set on it inside, the one for exceptions runs exactly if an exception is ignored, the one for success exactly if there was none, and the last one always; each gets the context, from which the exception can be read, then and afterwards. What a handler raises is what the code around sees. The sync and async forms agree.",
     ["inputs"],
     "all combinations of ignored types, endings of the body, handlers and their results",
     "Tests use some of the handlers.",
     ["_exceptions.py"], [("Ignore", "_exceptions.py")], ["handlers called, exceptions"])
prop("N08", "Displays and errors do not reveal secrets",
     "Unless debugging is turned on, no form of display of an object that holds secrets - ciphers, their streams and authenticators, key derivation objects, curve keys and exchanges, databases, signers, identifier makers, masked namespaces - contains a key, passphrase, plaintext or stored value or a recognizable part of one, and displays are masked again once debugging is turned off. The errors of calls that refuse or fail to use secrets never contain them, on or off, nor do the errors behind them.",
     ["histories", "inputs"],
     "every kind of object in every form of display and every kind of failing call, in all orders of turning debugging on and off",
     "Tests look at the displays of containers only.",
     ["commons/instances.py", "commons/slots.py", "commons/namespaces.py", "_debug_control.py", "_exceptions.py", "keygens/passcrypt/config.py"],
     [("displays", "commons/instances.py"), ("switch", "_debug_control.py")], ["displays and error texts"])
prop("N09", "Asynchronous file calls do what the system's do",
     "Awaiting one of the asynchronous forms of the file calls - making, removing and renaming files and directories, their states, permissions and owners, and sending one file's content to another - has exactly the effect and the result of the system's call with the same arguments, or fails with the error it fails with and changes nothing, and other tasks run meanwhile.",
     ["histories", "inputs"],
     "all states of two names that are files or directories with one more entry, every call in every state",
     "Tests use some of the calls once.",
     ["asynchs/aos.py", "asynchs/loops.py"], [("file calls", "asynchs/aos.py")], ["results, errors, files"])
prop("Q01", "Reports of security issues reach only the holder of the published key",
     "A report of a security issue can be decrypted and checked with the secret key belonging to the published one, to exactly the reporter's address and text, with the day it was made. Every report uses a new key, which is kept in the reporter's database opened by address, passphrase and the chosen megabytes, together with those of the reporter's three reports before it, in order, and no one else's. Answers that are not a number or are reconsidered are asked for again; less than one megabyte counts as one. Nothing shown contains the text, the passphrase or a secret key, the passphrase is asked for hidden, and declining shows and stores nothing.",
     ["histories", "inputs"],
     "all orders of up to five (thorough: six) reports of two reporters, with every way of answering",
     "Reports are not tested.",
     ["__engagement/issue_reporting.py"], [("reports", "__engagement/issue_reporting.py")], ["prompts, text shown, databases"])
prop("R01", "Random bytes have the asked length and never repeat",
     "Every request for random bytes, through the sync or the async functions or an entropy pool object, returns exactly as many bytes as asked for, and no two requests return values that have a part in common, whether made one after another or at once, by one or several threads, by tasks, or by processes that are forks of one another, and even while the system's random source and the clock stand still. Entropy given by the user then still changes the value and those after it. Requests made at once all succeed; a freshness that is not a number of rounds is refused.",
     ["histories", "schedules", "inputs"],
     "all short histories of requests and inputs from one state, threads switched at every step, tasks, forked processes",
     "Tests draw values one after another with a working random source.",
     ["randoms/rng.py", "randoms/simple.py", "randoms/threading_safe_entropy_pool.py", "randoms/_early_salts.py"],
     [("random bytes", "randoms/rng.py"), ("entropy pool objects", "randoms/threading_safe_entropy_pool.py")], ["returned values, errors"])
prop("R02", "Keyed choices and mnemonics are determined by their inputs",
     "A keyed selection has exactly as many elements as asked for, all of them from the given sequence, any of whose elements can be selected. Which ones depends on key, domain, the number of choices and the number selected, and on nothing else: the sync and async forms agree, and a change of any of these gives an unrelated selection. A mnemonic depends in the same way on passphrase, salt, settings, number of words and size; without a passphrase it is a new random one each time. Settings without a passphrase, and passphrases that are empty, too short or not bytes, are refused.",
     ["inputs"],
     "all single differences between two selections, for numbers of choices around byte sizes and several selection sizes",
     "Tests compare a few mnemonics from the default word list.",
     ["keygens/mnemonics.py"], [("keyed choices and mnemonics", "keygens/mnemonics.py")], ["selected elements, errors"])
prop("R03", "Entropy is gathered at the set pace until cancelled",
     "A started entropy daemon adds one new value to the front of its pool in every round, leaving the others, and sleeps between rounds for a random time within the delay limit in force: a temporary limit holds for its duration only, after which the initial limit holds again, and no sleep under a temporary limit outlasts it by more than a second. Limits that are not positive are refused and change nothing. After cancelling, the daemon ends when its sleep is over. Random sleeps of other callers stay within the given number of seconds.",
     ["histories"],
     "all sequences of setting limits, passing time, rounds and cancelling, under a controlled clock",
     "Tests only start a daemon.",
     ["randoms/entropy_daemon.py", "randoms/simple.py"], [("entropy daemon", "randoms/entropy_daemon.py")], ["durations slept, pool contents, threads"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]:
        if not pathlib.Path("/repo", f).exists(): print("missing", p["id"], f)
