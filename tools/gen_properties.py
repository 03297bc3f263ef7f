#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

prop("C01", "The DIANA trigraph is exact, reciprocal, total and agrees with the card",
 "For every pair of letters A-Z the trigraph is the letter numbered (25-x-y) mod 26, so it is symmetric and applying it twice with the same key letter restores the input; the byte, rune and append-by-key forms and the reciprocal table printed on key cards all give that same letter. Any other input (non-letters, nil pointers, a key index outside the key) yields an error, never a panic, and leaves the output and the index untouched.",
 ["inputs"], "all 26x26 letter pairs, all 256x256 byte pairs, runes over the whole int32 range, all key indexes",
 "diana's unit tests sample a handful of letters; a wrong result for one letter pair, or for one rune far outside A-Z, passes them.",
 ["diana/diana.go","diana/reciprocal-table.txt"],
 [("TrigraphByte/TrigraphRune/ZeroKey*/AppendTrigraphByteByKey","diana/diana.go"),("ReciprocalTable","diana/reciprocal-table.txt")],
 ["return value and written letter of every exported diana function","ReciprocalTable text"])

prop("C02", "Encipher then decipher returns the exact text at every station with the keys",
 "Any text made of supported characters (upper and lower case A-Z and Å Ä Ö, digits, space and ? - . , : + /) that a station enciphers is deciphered to exactly that text, letter case included, by every station holding the same keys, for every supported group size, key length, text length and number of chained keys. Deciphering also leaves the cipher text and key material unchanged.",
 ["inputs","configurations"], "every text over the alphabet, every (group size, key length) configuration, 1..many keys",
 "No unit test enciphers or deciphers anything; behaviour depends on where case, table and key changes fall in the text.",
 ["cipher.go","diana/diana.go"],
 [("Message.Encipher encode loop and key change","cipher.go"),("Message.Decipher","cipher.go")],
 ["Message.CipherText, KeyId after Encipher","Message.PlainText after Decipher at another station"])

prop("C03", "Cipher text follows the coding legend printed on the key card",
 "Cipher text produced by the program can be deciphered by hand: subtracting the key letters with the DIANA table and following the printed legend (two tables, Z switches table, X toggles case, Y followed by one group changes key and resets, trailing Z pads) gives the original text; and any text that a human enciphered by following that legend, including redundant table or case switches, early key changes and Z padding, is deciphered by the program to what the human meant. The cipher text of one message starts with the named key's first letter and always uses consecutive key letters.",
 ["inputs","programs"], "every text and every legal hand encoding of it",
 "The code's encoder and decoder could drift together (a swapped table column round-trips fine) and no test compares either with the legend.",
 ["cipher.go","print.go"],
 [("CharacterTables","cipher.go"),("encodeCharacter/decodeCharacter/changeKey/pad","cipher.go"),("KeyFooter","print.go")],
 ["CipherText of Encipher decoded by an independent decoder","PlainText of Decipher on independently encoded cipher text"])

prop("C04", "A one-time key never enciphers two messages, over any history",
 "Over any history of enciphering (automatic or explicitly named key), failing to encipher, deciphering, deleting, exporting, importing and reloading what was saved, no two cipher texts produced by a station are ever enciphered with the same key, and no key is used twice within one message (unless the user asks to import a fresh copy of a spent key over it or after deleting it). After a successful encipherment or decipherment exactly the keys its cipher text is chained over are newly marked used, and that mark survives saving and loading.",
 ["histories","inputs"], "all histories of API operations on one or more stations' stores",
 "Tests never encipher twice; reuse needs a history (explicit key, then an automatic one; failure in between; reload).",
 ["cipher.go","messages.go","keys.go","persistence.go"],
 [("FindKey skips used keys; EnrichWithKey/Encipher/Decipher mark used","cipher.go")],
 ["ids of the keys each produced cipher text decodes under","Key.Used before/after each operation"],
 [("Key.Used","key already spent","krypto431.go")])

prop("C05", "Only unused, uncompromised keys kept by all recipients are ever chosen",
 "Every key that an outgoing message is enciphered with, the first as well as each key it changes to, was at that moment unused, not compromised and of the configured group size, and has all of the message's recipients among its keepers (no keepers at all when the message has no recipients). A key named by the user is used as given if it exists, has the configured group size, is unused and not compromised, and refused otherwise. A message is refused for want of keys only when too few eligible keys are left for it; when none is left, enciphering fails with an error instead of falling back to another key.",
 ["inputs","histories"], "all key stores (mixtures of used, compromised, anonymous, shared, odd-sized keys) and recipient lists",
 "Needs stores with many differently marked keys and multi-key messages; the tests create none.",
 ["cipher.go","functions.go","messages.go"],
 [("FindKey","cipher.go"),("EnrichWithKey","cipher.go"),("AllNeedlesInHaystack","functions.go")],
 ["the chain of key ids of each produced cipher text","the error of a refused encipherment"])

prop("C06", "A failed encipherment is an error that changes nothing",
 "Whenever a text cannot be enciphered (an unsupported character, no eligible key, keys running out part-way, a bad key id, damaged key material, an empty text) the operation returns an error instead of panicking, and the station is left as before: same keys with the same ids, letters, keepers and used marks, no new message, and no cipher text left in the message.",
 ["inputs","histories","fault_sequences"], "all texts with unsupported content at any position, all shortages of keys, all damaged keys",
 "Failure paths are never executed by tests, and the interesting ones (out of keys at the n-th key change) need long multi-key messages.",
 ["cipher.go","messages.go"],
 [("Encipher deferred release of keys","cipher.go"),("NewTextMessage reset","messages.go")],
 ["deep snapshot of the station before and after","returned error / absence of panic"])

prop("C07", "Any supported text enciphers when enough keys exist, in whole groups",
 "If enough eligible keys exist, every non-empty text of supported characters enciphers successfully wherever its case, table and key changes happen to fall, in every supported configuration (group size 1 or more, key length 20 or more with room for a key change). The cipher text consists only of A-Z, its length is a whole number of groups, no key contributes more letters than it has, and no key is consumed that carries none of the text.",
 ["inputs","configurations"], "all texts over the alphabet x all (group size, key length) configurations",
 "Depends on the alignment of the text with the end of a key; only exhaustive sliding of the text across the boundary shows it.",
 ["cipher.go"],
 [("chunk switch threshold, key change, padding","cipher.go")],
 ["error of Encipher","CipherText length and alphabet","number of keys marked used"])

prop("C08", "Radiograms are parsed to exactly what they say, or refused",
 "A radiogram in any of the documented forms (with or without recipients, date-time group, address and instruction fields, group count, closing =K, K, + or AR) yields exactly its recipients (upper-cased, in order), sender, date-time group and text, however it is spaced, cased or broken over lines; without a date-time group the time of reception is used. Input without a sender is refused with an error, and no input makes the parser panic; a message whose sender is the station's own call-sign is treated as outgoing and any other as incoming.",
 ["inputs"], "all radiograms generated from the documented grammar plus arbitrary hostile strings",
 "Four overlapping regular expressions tried in order; no test parses any radiogram.",
 ["messages.go","functions.go"],
 [("MessageRegexp*; ParseRadiogram; NewTextMessage","messages.go")],
 ["fields of the parsed Message","error"])

prop("C09", "Traffic printed by one station is deciphered by the addressed station",
 "The traffic a station prints for an enciphered message, sent as it stands (or re-wrapped, re-spaced, lower-cased or divided by break signs (=) between groups in transmission) to a station that holds the keys, is recognised there as an incoming enciphered message from that sender and deciphers to exactly the original text with the same recipients and a date-time group of the same moment, whatever the time zones of the two. The group count announced in the traffic is the number of groups transmitted, key group included.",
 ["inputs","histories"], "all messages, recipients, call-signs, group sizes and re-wrappings of the printed traffic",
 "End-to-end between two stores; no test has two stations or parses printed output.",
 ["print.go","messages.go","cipher.go"],
 [("Message.String traffic section","print.go"),("ParseRadiogram/TryDecipherPlainText","messages.go, cipher.go")],
 ["printed text of the sender","Message at the receiver"])

prop("C10", "Undecipherable incoming traffic is kept and can be deciphered later",
 "An incoming message that cannot be deciphered (key not held, key ids of the chain missing, garbled groups) is stored with its text intact, no key is marked used and nothing else changes; once the missing keys are imported the same stored message deciphers to the original text. A dry run or a failed attempt to recognise enciphered text never changes the message, and clear text that does not start with the id of a held key is never replaced.",
 ["histories","inputs"], "all incoming texts, all subsets of missing keys, all orders of receiving, importing and listing",
 "Requires receiving before importing; failure restore paths are never run by tests.",
 ["cipher.go","messages.go"],
 [("TryDecipherPlainText restore","cipher.go"),("SummaryOfMessages re-tries deciphering","messages.go")],
 ["message fields before/after each attempt","Key.Used"])

prop("C11", "What is saved is what is loaded, across sessions and versions",
 "Loading a saved store gives back exactly the saved keys, messages, call-sign and settings, every field, in order, in a fresh instance as well as in one that already holds other data (reloading discards unsaved changes and shares no memory with them). Stores written by earlier builds of this format still load, and any number of save/load cycles loses or alters nothing.",
 ["inputs","histories"], "all store contents (empty to large, all unicode, extreme times), all histories of save and load",
 "No test saves or loads; reuse of decode targets only matters for the second load.",
 ["persistence.go","krypto431.go"],
 [("Save/Load gob+gzip+encryption","persistence.go")],
 ["deep comparison of the saved and the loaded store","a committed fixture store from the original code"])

prop("C12", "A store is opaque without its key and cannot be altered unnoticed",
 "A saved store can be loaded only with the persistence file key it was saved with; any other key gives an error. Whatever an attacker without the key does to the file (flip, cut, insert, reorder, repeat or drop parts, or mix parts of several stores or versions saved under the same key), loading returns an error or exactly one complete store that was really saved, never a panic or a partly loaded instance. The file contains no recognisable key letters, text or call-sign and two saves of one store share no encrypted part.",
 ["inputs","fault_sequences"], "all wrong keys and all byte- and record-level manipulations of stores",
 "No test touches encrypted files; integrity depends on end-of-stream checks only manipulated files exercise.",
 ["persistence.go"],
 [("encrypted-stream XSalsa20Poly1305 with random nonces; gzip checksum","persistence.go")],
 ["result of Load on manipulated files","entropy/strings/nonces of saved files"])

prop("C13", "A failed or interrupted save never loses the store",
 "If saving over an existing store is interrupted at any point (process killed) or any write, sync, close or rename fails (disk full, size limit, I/O error), the file still loads afterwards as either the complete previous or the complete new store. Save reports success only if the complete new store is in the file, and a failed save reports an error. The new store is flushed to disk before it takes the place of the old one, and that it took its place is flushed before success is reported.",
 ["crash_points","fault_sequences"], "every system call of a save as a kill point and as a failure point",
 "Needs killing the process or injecting I/O errors inside Save.",
 ["persistence.go"],
 [("Save","persistence.go")],
 ["the store file reloaded after the fault","exit status/error of Save"])

prop("C14", "An existing file is never overwritten unless that was allowed",
 "Saving, exporting or initialising onto a path that already exists leaves that file byte-for-byte unchanged and reports an error, unless overwriting was explicitly allowed or the store had been loaded from it. A new store is created where nothing existed.",
 ["histories","configurations"], "all combinations of option, prior load, file existence and kind",
 "No test saves anything.",
 ["persistence.go","cmd/krypto431/initialize.go","cmd/krypto431/keys.go"],
 [("overwritePersistenceIfExists","persistence.go")],
 ["bytes of the pre-existing file before and after","returned error"])

prop("C15", "Generated keys are well-formed, unique and uniformly random",
 "Every generated key has a group-sized id that is unique in the store, and the configured number of letters (rounded up to whole groups), all letters A-Z drawn independently and uniformly from the cryptographic random source; it is unused, uncompromised, expires when asked (one year ahead by default) and its keepers are the given call-signs, normalised and without the station's own. Exactly as many keys as requested are added and existing keys are not touched.",
 ["inputs","configurations"], "all configurations, counts, keeper lists and expiry groups; random source histories including forced id collisions",
 "The unit test generates keys but does not look at letters, uniqueness, keepers or expiry.",
 ["keys.go","crand/crand.go","functions.go"],
 [("NewKey/GenerateKeys","keys.go"),("VettedKeepers","functions.go")],
 ["fields of the new keys","bytes drawn from the (substituted) random source"])

prop("C16", "Randomness comes from the system CSPRNG and is safe to share",
 "All random values (integers, floats, bytes, runes, permutations) are derived only from fresh output of the operating system's cryptographic source: they repeat when and only when that source is replayed, seeding has no effect, integer ranges are respected and uniform, byte and rune buffers are completely filled, and a failing or short-reading source is reported (error or panic), never replaced by predictable output. Concurrent use from any number of goroutines is free of data races, the source being read by one goroutine at a time, and no output is handed out twice.",
 ["schedules","inputs","fault_sequences"], "all goroutine interleavings of all package functions; all failing or short random sources",
 "crand's tests are statistical and single-threaded, and excluded from the stable suite.",
 ["crand/crand.go"],
 [("cryptoRandSource with mutex","crand/crand.go")],
 ["race detector reports","outputs compared with the bytes the substituted source handed out"])

prop("C17", "Wiping destroys every secret in memory",
 "After a key, message, rune or byte slice or a whole station is wiped or closed, or a key or message is deleted, the memory that held its secrets (key letters, key ids, keepers, comments, plain text, cipher text, raw radiogram, binary content, persistence key, salt) no longer contains them and the fields are empty, also when the random source fails and also for passwords handed to key derivation. Wiping again or using an already wiped station gives an error or an empty result, never a panic.",
 ["inputs","fault_sequences"], "all contents, all wipe entry points, all random source failures",
 "No test inspects the backing memory.",
 ["krypto431.go","persistence.go","keys.go","messages.go"],
 [("Wipe/RandomWipe/ZeroWipe/WipeBytes/Close","krypto431.go")],
 ["backing arrays retained by the monitor before the wipe"])

prop("C18", "Keys and messages share no memory: wiping one never damages another",
 "Operations on one key, message, exported copy, imported source or loaded instance (wipe, delete, failed encipherment, keeper and recipient edits) never alter any other key, message or station: every other object keeps all its field values. This holds for any history of generating, enciphering, deciphering, listing, exporting, importing, saving, loading and deleting.",
 ["histories"], "all histories of operations over the objects of one or two stations",
 "Aliasing only shows when one of the sharing objects is later wiped; tests do single operations.",
 ["cipher.go","persistence.go","keys.go","messages.go","functions.go"],
 [("RuneCopy on hand-over","functions.go")],
 ["deep snapshots of all objects before and after each operation"])

prop("C19", "Exported keys arrive complete and usable at the importing station",
 "An export contains exactly the keys selected by the filter, with all their fields, and no messages; importing it adds exactly the selected keys of its own group size not already held (and replaces held ones only when asked to), with the same id, letters, dates, marks and comment, the exporter added to and the importer removed from the keepers. Both stations can then exchange enciphered messages with those keys, and neither the exporting store nor any other key of the importing one changes.",
 ["histories","inputs"], "all key stores, filters, id overlaps between the stations, options and group sizes",
 "No test exports or imports.",
 ["persistence.go","keys.go"],
 [("ExportKeys/ImportKeys","persistence.go"),("AddKeeper/RemoveKeeper","keys.go")],
 ["exported store, importing store before/after","a message exchanged afterwards"])

prop("C20", "Persistence keys are derived as documented and bad ones are refused",
 "A password and salt give exactly the PBKDF2-HMAC-SHA256 key with 310000 iterations and 32 bytes, so the same password and salt always open a store and different ones never do; generated keys and salts are 32 fresh random bytes in hex. Keys that are not 32 bytes, salts shorter than 32 bytes, malformed hex, a missing salt and (where validation is asked for) weak passwords are refused with an error and leave the previous key or salt in force. A new password typed at a terminal counts only when it was typed the same twice.",
 ["inputs"], "all passwords (empty, unicode, long), salts and hex strings",
 "No test derives a key.",
 ["persistence.go","krypto431.go"],
 [("DerivePFKFromPassword*, SetPFKFromString, SetSaltFromString, GeneratePFK/Salt, With*","persistence.go, krypto431.go")],
 ["GetPFK/GetSalt compared with an independent PBKDF2","errors"])

prop("C21", "Key cards show the complete key, legend and table, and exactly the chosen keys",
 "Each printed key card, as text or PDF, shows the key's id, all its letters in order in groups of the configured size, its keepers, expiry and creation groups, its used mark, the whole reciprocal table and the coding legend, with nothing overwritten or cut off; a print-out contains exactly the selected keys (the text form in store order). Grouping never drops, adds or reorders letters and respects the group size and column limit.",
 ["inputs","configurations"], "all keys, group sizes, key lengths, column settings and numbers of keys per print-out",
 "No test prints; cutting off only happens for certain lengths and page fills.",
 ["print.go","functions.go","keys.go"],
 [("Key.String/KeysAsText/KeysTextFile/KeysPDF","print.go"),("groups","functions.go")],
 ["text output","text extracted from the PDF"])

prop("C22", "Message print-outs and lists show exactly the chosen messages, complete",
 "Each printed message, as text or PDF, shows its id, date-time group, sender and recipients, its complete plain text and its complete cipher text prepended by the key id; a print-out or list contains exactly the selected messages (text and list in store order), and list rows show the right fields in aligned columns. Printing or listing does not alter a message except that received traffic whose keys are now held is deciphered.",
 ["inputs","configurations"], "all messages (long, wrapped, unicode, multi-key, undeciphered) and numbers of messages per page",
 "No test prints messages; losses happen only at page and wrap boundaries.",
 ["print.go","messages.go","functions.go"],
 [("Message.String/MessagesAsText/MessagesTextFile/MessagesPDF","print.go"),("SummaryOfMessages/SummaryOfKeys","messages.go, keys.go")],
 ["text output","text extracted from the PDF","summary rows"])

prop("C23", "Files holding secrets are created readable by the owner only",
 "Every store, export, key print-out or message print-out (text or PDF) that the program creates is accessible to its owner only from the moment it exists, whatever the umask, and temporary files used on the way are too and do not remain once the operation has returned. Rewriting an existing file never widens its permissions.",
 ["configurations","crash_points"], "all output kinds, umasks, existing or new files, library and command line",
 "No test looks at permissions.",
 ["persistence.go","print.go"],
 [("OpenFile 0600","persistence.go, print.go")],
 ["mode of every file in the directory after (and during) the operation"])

prop("C24", "Key selection flags of the command line select exactly the right keys",
 "For every combination of the key command's selection flags (keepers with all-of or any-of, ids, all, used, unused, compromised, expired, invalid, valid for n days) listing, exporting, importing and printing act on exactly the keys that satisfy the documented meaning of those flags. The list shows each selected key once with its id, keepers, dates, marks and comment, and a key asked for its validity or marks answers the same.",
 ["inputs","configurations"], "all flag combinations x key stores with all mixtures of marks and dates",
 "There is no test of the command line at all.",
 ["cmd/krypto431/keys.go","keys.go","functions.go"],
 [("filterFunction in keys()","cmd/krypto431/keys.go"),("SummaryOfKeys","keys.go")],
 ["standard output and exported/printed files of the built program"])

prop("C25", "Message selection flags of the command line select exactly the right ones",
 "For every combination of the message command's selection flags (recipients with all-of or any-of, senders, ids, all) listing and printing act on exactly the stored messages that satisfy the documented meaning of those flags, case-sensitively for message ids and case-insensitively for call-signs.",
 ["inputs","configurations"], "all flag combinations x message stores",
 "There is no test of the command line at all.",
 ["cmd/krypto431/messages.go","messages.go","functions.go"],
 [("filterFunction in messages()","cmd/krypto431/messages.go")],
 ["standard output and printed files of the built program"])

prop("C26", "The program shows cipher text only after the used keys are safely stored",
 "When the command line enciphers a message, the cipher text reaches the output only after the store recording the keys as used has been saved; if saving fails, no cipher text is shown and the exit status is non-zero (saved means on disk: the data before the file takes the store's name, and the name before the cipher text is shown). Whatever command changes the store (messages enciphered, received or deciphered while listing, keys generated, imported, deleted) the change is in the file when the program exits with status 0, and every failed command exits non-zero with the previous store intact.",
 ["crash_points","fault_sequences","histories"], "every failure and kill point of each command's save; all command sequences",
 "No test runs the program, let alone with a failing disk.",
 ["cmd/krypto431/messages.go","cmd/krypto431/keys.go","cmd/krypto431/krypto431.go"],
 [("order of Save and Println","cmd/krypto431/messages.go")],
 ["stdout, exit status and reloaded store after each command under injected faults"])

prop("C27", "Changing the persistence key re-keys the store and changes nothing else",
 "After the key-change command succeeds, the store opens with the new key or password (and new salt) and no longer with the old one, and holds exactly the same keys, messages and settings; when it fails or is given wrong or contradictory options (random with a new password or key, or two new credentials), the store still opens with the old key and is unchanged; the same if a new random key can not be shown. Key and salt generation print a valid fresh value.",
 ["inputs","fault_sequences"], "all option combinations of the pfk command, right and wrong credentials",
 "No test runs the program.",
 ["cmd/krypto431/pfk.go","cmd/krypto431/functions.go","persistence.go"],
 [("managePFK/generatePFK","cmd/krypto431/pfk.go")],
 ["exit status, output, and store loaded with old and new credentials"])

prop("C28", "Deletion removes exactly the named keys or messages",
 "Deleting keys or messages by id (as runes, strings or summary lines, one or several, separated by commas or spaces) removes exactly the named ones that exist, keeps every other one with all its contents, and reports the number removed; key ids match in any letter case, message ids exactly. Unknown or empty ids remove nothing.",
 ["inputs","histories"], "all stores and id lists including duplicates, unknown ids and near misses; all deletion histories",
 "No test deletes anything.",
 ["keys.go","messages.go","functions.go"],
 [("DeleteKey*/DeleteMessage*","keys.go, messages.go"),("VettedKeys/VettedMessageIds","functions.go")],
 ["multiset of keys/messages before and after","returned count"])

prop("C29", "Every message gets its own stable id",
 "Each new message, enciphered or received, has a four-character alphanumeric id that no other message of the store has, even when the random source repeats itself; the id stays the same through deciphering attempts, saving and loading, and looking a message up by id finds that message only.",
 ["histories","inputs"], "all message histories; random sources that repeat values",
 "No test creates messages; collisions never happen by chance in a short run.",
 ["messages.go","functions.go"],
 [("NewUniqueMessageId/ContainsMessageId/RandomAlnumRunes","messages.go, functions.go")],
 ["Message.Id of all messages after every step, with a rigged random source"])

prop("C30", "Independent stations work concurrently without interfering",
 "Separate station instances used from different goroutines at the same time (generating, enciphering, deciphering, listing, printing, saving, loading, exporting, importing, wiping) are free of data races and each produces exactly the results it would produce alone.",
 ["schedules"], "all interleavings of operations on distinct instances",
 "No test is concurrent and the stable suite is built without the race detector.",
 ["cipher.go","functions.go","messages.go","print.go","crand/crand.go"],
 [("no mutable package state except the locked random source","functions.go, crand/crand.go")],
 ["race detector reports","per-station results checked against the reference"])

prop("C31", "Invalid settings and call-signs are refused, defaults are as documented",
 "Settings validation accepts a station exactly when it has a file name, group size of at least 1, key length of at least 20, width of at least 85 and key width of at least the group size, and reports which one is wrong otherwise; defaults are as documented and every option sets its own field only. Call-signs are trimmed and upper-cased and shorter than two characters are refused keeping the previous one; the initialise command creates a store only from valid settings and a valid call-sign, with exactly the requested settings and keys, and asks its questions again when an answer is wrong.",
 ["inputs","configurations"], "all option values around the limits, all call-sign strings, library and command line",
 "No test validates settings.",
 ["krypto431.go","cmd/krypto431/initialize.go"],
 [("New/With*/Assert/SetCallSign","krypto431.go"),("initialize","cmd/krypto431/initialize.go")],
 ["instance fields, Assert error","store created by init"])

prop("C32", "Call-sign and id lists are parsed, compared and edited as sets",
 "Lists of call-signs, keepers, recipients, key ids and message ids given as any mix of arguments, commas and spaces are split into exactly their non-empty items in order (upper-cased, except message ids); containment tests, any-of, all-of, equality (case-sensitive and folded), adding without duplicates and removing give the results of the corresponding set operations. Rune and byte copies are equal to and independent of their source.",
 ["inputs"], "all strings and list combinations including empty, nil, unicode and duplicate items",
 "No test covers these helpers, on which key selection and command-line filters rest.",
 ["functions.go","keys.go","messages.go"],
 [("Vetted*, AllNeedlesInHaystack, AnyNeedleInHaystack, EqualRunes*, Add/Remove Keeper/Recipient, RuneCopy/ByteCopy","functions.go, keys.go, messages.go")],
 ["return values against a reference model"])

prop("C33", "Hostile radiograms, cipher text and stores never crash or hang the program",
 "No radiogram, cipher text, key content, id or summary line, however malformed, makes a library operation panic, exit the process or run away in time or memory: it returns a result or an error proportionate to the input. A receiving station's own keys and earlier messages are unchanged by input it refuses.",
 ["inputs"], "all byte and rune strings up to a size bound, structured mutations of valid traffic",
 "Tests feed only valid input.",
 ["cipher.go","messages.go","functions.go"],
 [("error returns in Decipher, ParseRadiogram","cipher.go, messages.go")],
 ["panic, exit, CPU and heap monitors around each call","station snapshot"])

prop("C34", "Programs that share a store never undo each other's work",
 "When several runs of the program or several instances have the same store file open, whatever one of them reported as saved is still there after any of the others saved: a save is refused with an error and leaves the file as it is if the file is no longer the one that instance loaded (or itself saved after loading), and it is not refused otherwise. So no key of a store ever enciphers two messages by being picked by two programs, and of several programs that create the same new file without leave to overwrite, exactly one succeeds and the file is its.",
 ["schedules","histories"], "all interleavings of opening, changing and saving by up to ten programs or instances; programs that wait for input between loading and saving; killed programs",
 "Tests use one instance and no file that anybody else has open.",
 ["persistence.go","cmd/krypto431/messages.go","cmd/krypto431/keys.go","cmd/krypto431/initialize.go"],
 [("Save/replacePersistence against Load","persistence.go")],
 ["store file after each save against a version log","exit status and cipher text shown of every run against the final store"])

prop("C35", "A print-out is reported as written only if its file is complete",
 "When printing keys or messages to a text file or a PDF is reported as successful, by the library or by the program, the file holds exactly the whole print-out, and nothing of what was in the file before; when the file can not be opened, written or closed without error (full disk, quota, size limit, I/O error, no such place), the program exits with a failure and the library returns an error. Printing never changes the store, whether or not it succeeds.",
 ["crash_points","inputs"], "every file system call of a print-out failing, every size limit; new, longer, shorter and linked existing files",
 "No test prints to a file, let alone to one that fails; key cards are distributed on paper and the loss of the last page shows only at the other station.",
 ["print.go","cmd/krypto431/keys.go","cmd/krypto431/messages.go"],
 [("KeysTextFile/KeysPDF/MessagesTextFile/MessagesPDF","print.go"),("-o","cmd/krypto431/keys.go, cmd/krypto431/messages.go")],
 ["the file after the call against an undisturbed print-out","error or exit status while a call is made to fail"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
