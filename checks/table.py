"""What each check builds and runs, and how it is described in MANIFEST.json."""

MC = "model_checking"
EX = "exploration"
FE = "fault_enumeration"


def c(name, level, technique, note, rule, build=None, assumptions=None, clock=False):
    return dict(build=build or [(name, "verifkit/" + name, [])], level=level, technique=technique,
                note=note, rule=rule, assumptions=assumptions or [], clock=clock)


CHECKS = {
 "C01": c("c01", MC, "explicit-state exploration of conversations on the real code",
   "All interleavings of sends (plain, renewing, resetting) and deliveries within the stated bounds, breadth first, states "
   "merged on the full content of all key stores, mails and random sources; long one-sided streams in addition. Trusts "
   "the reference key store of the harness (the real ones are compared with it in C06).",
   "A state is the content of all parties' key stores, their random sources and the set of sent and opened mails; a "
   "transition is one real encryption or decryption; a trace is a maximal history or one that ended in a known state, "
   "every step of which ran on the implementation (complete conversations once more on the repository's memory store)."),
 "C02": c("c02", MC, "explicit-state exploration of conversations with redelivery in every state",
   "Same state space as C01; in every state every opened mail is delivered again (once and twice, also to its sender) and "
   "every key store is searched for used message keys and for chain keys leading to them.",
   "States, transitions and traces as in C01; an evaluation is one redelivery of one opened mail in one state, distinct by history and mail.",
   build=[("c02", "verifkit/c01", [])]),
 "C03": c("c03", EX, "exhaustive enumeration of alterations, truncations and packet splices",
   "Every byte of genuine messages altered, every splice of the six packets of five genuine messages, every packet "
   "sequence of length five to seven of one message, wrong recipients and resealed headers, each delivered to a copy of "
   "the recipient in the right state. The bit of the header key that X25519 ignores is left out, and data after the last "
   "packet is not regarded as part of the message.",
   "A case is one altered, cut, spliced or misdirected message delivered to a copy of a party; distinct by its description; all are non-trivial, as each differs from a genuine message."),
 "C04": c("c04", EX, "exhaustive enumeration of content lengths and header sizes",
   "All content lengths (a dense subset in the quick tier) for signed and unsigned, first and later messages, all identity "
   "lengths, nym address lengths and counter widths; encrypted and decrypted with the real code.",
   "A case is one message with given content length, signature and session position, or one header size; distinct by description."),
 "C05": c("c05", EX, "exhaustive enumeration of signers, claimed senders and session positions",
   "All combinations of signing key, claimed name, stated key and enclosed identity message at nine positions of a conversation.",
   "A case is one message made by a given signer or impostor; distinct by description."),
 "C06": c("c06", MC, "explicit-state exploration of operation histories in lockstep with a reference model",
   "All histories of key database operations up to a depth over small sets of values, run on real encrypted databases "
   "next to a reference model of maps, every read compared after every history, with closing and reopening as operations.",
   "A state is the content of the reference model after a history; a transition is one operation executed on the database; "
   "a trace is one history, each of them executed on a fresh database."),
 "C07": c("c07", FE, "exhaustive crash and fault enumeration on the traced file system steps of the real code",
   "The file system steps of a database's creation, writes and passphrase changes are recorded; for every step every "
   "combination of lost, cut, zeroed or missing unsynced writes is laid out on disk and opened with every passphrase; "
   "every system call on the files is made to fail in turn, and files are limited to every size. All histories of "
   "create, open, write, vacuum and rekey up to a depth, all pairs of a list of passphrases, and the tool's commands with "
   "matching and differing passphrases in addition. NUL bytes in passphrases are left out, as PBKDF2 pads with them.",
   "A case is one disk image after a crash, one failing call, one passphrase pair or one run of the tool; a state is a disk "
   "image or the reference model's content; a transition is one recovery or executed operation; a trace is one history.",
   build=[("c07", "verifkit/c07", []), ("mutecrypt", "cmd/mutecrypt", [])]),
 "C08": c("c08", MC, "explicit-state exploration of queue histories in lockstep with a reference model, and of all crash points",
   "All histories of queueing, encrypting, enveloping, resending, retracting, sending, fetching, delivering, dropping, "
   "reading and deleting up to a depth, run on real databases next to a reference model; at the end of each the queues are "
   "emptied and compared. One long history in addition, cut after every file system step with every combination of lost, "
   "cut or missing unsynced writes, after which the database must show the content from before or after the step.",
   "A state is the model's content or a disk image; a transition is one executed operation or recovery; a trace is one history run on a fresh database."),
 "C09": c("c09", MC, "explicit-state exploration of histories over several identities in lockstep with a reference model",
   "All histories of adding and deleting identities, contacts, accounts, messages, cached message numbers, queue entries "
   "and settings up to a depth, from empty and from filled databases; after each everything readable is compared for all "
   "identities and the tables are searched for rows of deleted ones.",
   "A state is the model's content; a transition is one executed operation; a trace is one history run on a fresh database."),
 "C13": c("c13", EX, "exhaustive enumeration of identity names over boundary alphabets, all runes and all lengths",
   "All local parts up to five characters over an alphabet of 27 boundary characters (letters that are mapped, separators, "
   "spaces, look-alikes, bytes that are not UTF-8), every rune in every kind of position, every length; mapped by the real "
   "code and compared with a reference of the documented rules, with stability, alphabet and length checked on the result, "
   "and the users of mapped names checked to refuse all others.",
   "A case is one name; distinct by the name and the list it comes from; an outcome is whether it is accepted."),
 "C24": c("c24", EX, "exhaustive enumeration of values, texts and lengths against reference encodings",
   "All integers made of boundary bytes, all texts up to five characters over an alphabet of boundary characters for "
   "base64, all byte strings up to two bytes, all lengths up to a bound for padding, AES modes and wrapped mail including the "
   "largest ones, short randomness of every length, all combinations of record fields and errors, every cut and altered "
   "byte of a record.",
   "A case is one value, text, length or damaged record; distinct by description."),
 "C28": c("c28", MC, "exhaustive enumeration of key pairs and alterations, and explicit-state exploration of conversations",
   "All ordered pairs of a set of keys including degenerate ones, compared with another implementation of the key agreement; "
   "all key lengths, short randomness, every bit of signatures altered; derivations of all lengths against a reference. "
   "All conversations of three parties up to a depth, with lost messages: after each step the message keys stored at both "
   "ends are compared, and no key may serve two directions, sessions or positions.",
   "A case is one key pair, key length, text or conversation; a state is a conversation prefix; a transition one message; a trace a full conversation."),
 "C23": c("c23", EX, "exhaustive enumeration of texts, and of the editor's key sequences",
   "All texts up to five pieces over an alphabet with every kind of rune and with invalid bytes, every rune, lines of all "
   "lengths; every position in and around the text read in all three coordinate systems and compared with a reference "
   "layout that uses the same table of rune widths. All sequences of the editor's keys and of changes of the screen's size up to a depth on several texts and "
   "screen sizes, the cursor compared with a reference and the screen with the text.",
   "A case is one text or one key sequence; a state is a cursor position in a text; a transition is one key."),
 "C17": c("c17", EX, "exhaustive enumeration of mails, chunk sizes and arrival orders, and of cut and altered mail",
   "All messages up to five pieces over an alphabet of boundary texts, all lengths of several kinds of text, all pairs of "
   "attachments from a list of awkward names, types and contents, headers of all kinds; composed, split into chunks of all "
   "small and several larger sizes, joined in every order (up to five chunks) and parsed. Every cut of a mail and a chunk, "
   "every byte replaced by several values, left out or doubled, every line replaced by every other.",
   "A case is one mail, chunking or damaged mail; distinct by description; a trace is one order of arrival."),
 "C14": c("c14", EX, "exhaustive enumeration of sealed, damaged and forged mix messages on the real code",
   "All combinations of tokens and delays of boundary values, hundreds of consecutive body sizes and all size class limits, "
   "sealed, opened at the mix, passed on and received. Every byte of a sealed and of a delivered message changed, cut, left "
   "out; all splices of two deliveries' headers; every byte value in every place of the header of a correctly sealed hostile "
   "message, nearly all header lengths, all combinations of empty and odd fields, types and body sizes. Cryptographic "
   "primitives are trusted; time is frozen.",
   "A case is one message; distinct by description; a trace is a message followed from sender to recipient.", clock=True),
 "C15": c("c15", EX, "exhaustive enumeration of nym addresses and of their alterations on the real code",
   "All combinations of mailboxes, secrets, expiry times, delays and modes from boundary lists, opened with every key; "
   "every byte value in every place of the private part, every bit elsewhere, every cut, every recombination with "
   "addresses for the same and another mix, and the same for the header the mix makes. All lists of up to four mixes over "
   "eight expiry times. Addresses of many identities made through a local key server. Time is frozen.",
   "A case is one address or altered address; a trace is an address used end to end.", clock=True),
 "C16": c("c16", MC, "explicit-state exploration of key lists against a reference, enumeration of altered statements",
   "All sequences, up to the stated depth and merged on the reference's state, of adding keys of two lifetimes, waiting, "
   "expiring, saving, loading, loading rubbish and restarting on the real key list with a controlled clock; after each, all "
   "private keys, the statement and what a client takes from it are compared. All single and many double alterations of "
   "statements of up to four addresses; all lists up to a length over five expiry times.",
   "A state is the reference's content relative to the time; a transition is an operation; a trace a sequence.", clock=True),
 "C10": c("c10", MC, "explicit-state exploration of synchronisation histories and exhaustive fault injection in a key server's answers, on the real client",
   "mutecrypt's command engine and key database run against a key server whose answers are altered in every element (dropped, "
   "replaced, retyped, numbers shifted, every character changed), and which answers any call with anything. All histories up to "
   "the stated depth, merged on the reference's state, of synchronising with an honest, a lying, a growing and another chain, and "
   "deleting. All chains of up to two (thorough: three) entries over about twenty variants per position, every changed byte of a "
   "chain of six, all orders. All assignments of signature keys, all short lists of positions, and some thirty-five hostile "
   "identity messages in correctly linked entries. What is stored, validates and is taken over is compared with a reference.",
   "A case is one command against one server; a state is the stored chain and the server's; a transition is a command.", clock=True),
 "C11": c("c11", EX, "exhaustive enumeration of altered identity messages, updates and replies on the real code",
   "Identity messages of all kinds altered in every element of their JSON text, as they are and signed again by the right and "
   "by wrong keys; all ordered pairs of messages as updates; replies of a key server altered in every element and byte and with "
   "every byte of the encrypted message changed, under the right and other keys. A reference decides which are valid. "
   "All sequences of mutecrypt's uid commands (generate, register, genupdate, update, delete, list) up to a depth against a key "
   "server which answers in sixteen ways. Cryptographic primitives are trusted.",
   "A case is one message, pair, reply or sequence of commands; a state is a prefix of a sequence, a transition one command.", clock=True),
 "C12": c("c12", EX, "exhaustive enumeration of altered key init messages, identities and times on the real code",
   "Key init messages altered in every element and byte, as they are and signed again by the right and wrong keys; all pairs "
   "of messages and identities; all positions of the current time relative to the validity period and all boundary validity "
   "periods at creation. A reference decides which are accepted. The commands that publish, fetch and withdraw key init messages "
   "run against a key server that alters every element and byte of its answers. Cryptographic primitives are trusted.",
   "A case is one key init message, identity and time; distinct by description.", clock=True),
 "C20": c("c20", EX, "exhaustive enumeration of altered keys, tokens, requests and credentials on the real code",
   "Issuer keys (usages and coordinates of all shapes), signed tokens of all owners and keys, exchange and spend requests of all "
   "holders and wallet credentials: every byte given many (for some: all) other values, cut, left out and inserted; every field "
   "replaced by boundary values and by that of every other object; every other reading of what a key's identifier or a token's "
   "hash was made of; all pairs of contents and signatures; all signers and holders; the second before and after expiry. A whole "
   "exchange with a local issuer for all old and new holders, with every byte of the reply and parameters altered. Whatever was "
   "changed must be refused, the unchanged accepted, and nothing may crash.",
   "A case is one object and alteration; distinct by description; a trace is a completed exchange.", clock=True),
 "C22": c("c22", FE,
   "exhaustive enumeration of altered documents, server failure combinations and update histories against the real configuration client",
   "Every altered field and byte region of a signed configuration and every position of its signing time relative to now and to the "
   "installed one go to the real verifier; every combination of outcomes (good, unreachable, empty, garbage, other key, old, ...) of up "
   "to three local HTTP servers under all priority orders, and of certificate deliveries, goes through the real Update, which must ask "
   "the servers in order, install what the first good one delivers and otherwise leave everything as it was; configurations of every kind of size up to the largest transferred; all short histories of "
   "updates must never roll back. Installed certificates are judged by what a TLS client would then trust.",
   "A state is an installed configuration; a transition an update; a trace a finished history; distinct cases by description.", clock=True),
 "C21": c("c21", MC,
   "explicit-state exploration of key pool histories in lockstep with a reference model; all pairs of concurrent operations under the race detector",
   "All histories of accepting signers, loading eight keys (two signers, two usages, two life times, four forgeries), saving, looking "
   "up (with every answer of the fetch callback), waiting, restarting and loading all, for six storage set-ups and pools with and "
   "without usage, and of the generator's current and previous key over its life; every damage of one stored record (all cuts, bits "
   "of every byte); storage that fails; pools and keys of every pair of seven usages by five ways; all chains of up to four sources of keys; every alteration of the lookup server's answers; all pairs (thorough: triples) of twelve "
   "operations at the same time, where the race detector's happens-before analysis stands for all schedules of the pair, and the "
   "results must be those of some order.",
   "A state is the reference model's (signers, loaded keys, stored keys, time); a transition one operation on the implementation; a trace a history compared step by step; evaluations are altered records, answers and concurrent sets, distinct by description.",
   build=[("c21", "verifkit/c21", []), ("c21race", "verifkit/c21race", ["-race"])], clock=True),
 "C18": c("c18", MC,
   "explicit-state exploration of wallet store histories in lockstep with a reference model; crash after every statement of every operation; all pairs of concurrent operations under the race detector",
   "All histories (bounded depth, from an empty and a filled store) of storing, updating, locking, unlocking, handing out, deleting "
   "and expiring tokens, waiting, restarting, cleaning locks and a second handle on the same database, for three sets of tokens (given "
   "away, own, mixed); after every step every answer of both handles is compared with the model. Every form of a token (every "
   "combination of its optional fields). A crash after each statement of each operation on each prior state. Histories of the cached "
   "credential and keys. All pairs of ten operations at the same time, whose race detector verdict stands for all schedules.",
   "A state is the reference model's (time, stored variants, age of locks, credential, keys); a transition one operation on the implementation; a trace a history (or crash) compared; evaluations are forms, crashes and concurrent sets, distinct by description.",
   build=[("c18", "verifkit/c18", []), ("c18race", "verifkit/c18race", ["-race"])], clock=True),
 "C19": c("c19", MC,
  "fault enumeration of the real wallet client against model servers: every interaction with a server or the wallet store is answered by every fault of an alphabet, alone and in pairs, or is the last before a crash",
  "The client runs in process with the real wallet store; the wallet server, the issuers and the key lookup server are model servers which issue, blind-sign and account for real tokens. Every event of 28 operations fails in every way (refusals, lost requests and replies, garbage, contents of other keys, owners and usages, altered documents, store failures, crashes before and after), followed by a retry, a restart, hours, or expired parameters; then everything works again. "
  "After every step each stored token must verify under a published key and be what its entry says; no token may be handed out for another owner or usage, parameters may be refused as mixed for good and the owner may change between attempts; at the end every operation must work again and as many tokens must be live as were paid for. The runner must start, stop and fill the wallet in every order of commands.",
  "A state is the operation with what is issued, spent, live, counted and in exchange after an attempt; a transition one attempt; a trace a history of attempts up to the final count; evaluations are histories and runner sequences, distinct by description.",
  assumptions=["A request is answered or its connection ends", "Servers cache their replies by request, as the protocol requires"], clock=True),
 "C27": c("c27", MC, "explicit-state exploration of request histories against the real program, with every request probed in every state; all pairs of concurrent requests under the race detector",
  "The real mutectrl runs with its web application on a loopback port. All histories up to the stated depth of logins (right, wrong, partial, missing, repeated, misplaced and malformed passphrases in several methods and encodings), other requests and restarts, for seven kinds of home directory; after each, requests of every method, path and cookie (none, empty, wrong, parts of the secret, earlier secrets, several) must be answered, and answered with the application exactly if they carry the secret of the latest login.",
  "A state is the history of logins; a transition one request; a trace a finished history; evaluations are histories, distinct by description.",
  build=[("c27", "verifkit/c27", []), ("mutectrl", "cmd/mutectrl", []), ("mutectrl-race", "cmd/mutectrl", ["-race"])],
  assumptions=["The browser is one that opens connections to the loopback interface; programs that watch that interface are not considered.",
    "PBKDF2 does not tell a passphrase from the same with zero bytes appended; such passphrases are left out."]),
 "C26": c("c26", MC,
   "explicit-state exploration of histories of the control engine's contact and mail commands in lockstep with a reference model of each correspondent's standing",
   "The control engine runs in process on a real message database; its key engine is a stand-in that answers, fails or finds no keys "
   "as the history says. Every reachable state of one identity and contact under all contact commands (every spelling of the "
   "identities, with and without full names, keys that cannot be fetched), mail received (keys available or not), mail sent and "
   "restarts; all unmerged histories of two (thorough: three) of these, and of four (five) of the main ones; every reachable state of "
   "two identities or two contacts (thorough: both). After every step all lists, the stored contacts, the mail shown and the keys "
   "asked for are compared with the model.",
   "A state is the reference model's (what each identity knows about each contact, mail held); a transition one command on the implementation; a trace a history compared step by step.",
   build=[("c26", "verifkit/c26", []), ("c26fake", "verifkit/c26/fake", [])], clock=True,
   assumptions=["The key engine reports what it did by its exit status."]),
 "C25": c("c25", FE,
   "exhaustive fault injection over the steps of sending and fetching by the real programs: every announced step of every command is made to fail, to kill its program, or to kill all, singly and in pairs, followed by healthy retries",
   "mutectrl, mutecrypt and muteproto run as processes with a virtual clock; they announce their start, every database commit and "
   "their end, the check's SMTP (with STARTTLS) and account servers announce every protocol step. For each scenario (one or three "
   "messages of two identities to send; one or nine mails, some not for us, some undecryptable, to fetch) every step is failed in every "
   "way: an error, a refusal (temporary, permanent, spent token), a dropped connection, rubbish, a killed program, a crash of all. "
   "Pairs of faults for the scenarios with one message (thorough: all). After the retries every message has been sent to its "
   "recipient (once, unless the fault leaves doubt) and can be decrypted, every mail is shown once, nothing waits or is sent again.",
   "A trace is one history of a disturbed command and its retries, a transition one announced step.",
   build=[("c25", "verifkit/c25", []), ("c25helper", "verifkit/c25/helper", ["-ldflags=-checklinkname=0"])], clock=True,
   assumptions=["A commit of SQLite is atomic: faults hit before or after it, not in its middle.",
                "Two messages sent twice after a doubtful fault are distinguishable copies for the recipient, which C01's check covers."]),
 "C29": c("c29", MC, "explicit-state exploration of conversations, every state continued in every way",
   "All interleavings of sends (plain and renewing) and deliveries within the stated bounds, states merged on the full content "
   "of key stores, mails and random sources; in every state copies of both key stores are taken, the conversation goes on for "
   "six exchanges in each of 24 ways (who writes first; mail under way arriving, in reverse, late or never; who starts "
   "renewals), and the copies are tried on the last messages: on these alone, and on all messages in order.",
   "A state is the content of both key stores, the random sources and the mails; a transition is one real encryption and "
   "decryption; a trace is one continuation of one state; an evaluation likewise, distinct by history and continuation."),
 "C30": c("c30", FE, "exhaustive enumeration of server behaviours and answers on the real client over loopback connections",
   "The mail and account clients run unchanged against scripted SMTP and HTTPS servers on loopback addresses, one per case. All "
   "client settings x server offers x certificates x failing step x kind of answer; all histories of two deliveries and what "
   "follows; all single alterations of every JSON answer and every prefix and character of the text answers; counter refusals "
   "0-5 times at five distances. The oracle compares what the server took and received with what is reported.",
   "A trace is one dialogue (or history of deliveries) with a server; an evaluation is one case, distinct by its description.",
   assumptions=["Certificates are decided by crypto/x509: valid ones of two authorities are used, not malformed ones.",
                "Times in message lists that no float represents exactly may be rounded: JSON numbers are read as floats."]),
}
