#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of that file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe)}})

p("C01", "Messages between two users decrypt in every order of sending and delivery",
  "Whatever the order in which two correspondents write to each other and in which their messages arrive (first messages crossing, replies, late, overtaking or lost messages, sessions renewed because they grew too large), every message that arrives decrypts on the recipient's side. It yields exactly the bytes that were encrypted and names the true sender.",
  ["histories", "schedules"], "every interleaving of sends and deliveries of two parties up to a bounded number of messages, for several session sizes, for signed and unsigned messages",
  "The tests send a handful of fixed ping-pong sequences; crossing, reordering, loss and renewal combine into thousands of histories.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/keys.go", "msg/header.go", "msg/session/session.go", "msg/session/memstore/memstore.go"],
  [("ratchet session setup and roll-over on sending", "msg/encrypt.go Encrypt, setNextSenderSessionPub, nextSenderSession"),
   ("session selection and root key agreement on receiving", "msg/decrypt.go Decrypt"),
   ("message key generation", "msg/keys.go deriveRootKey, generateMessageKeys")],
  [("session state", "temp keys, next keys, counters of a conversation", "msg/session State")],
  ["result, sender and content of Decrypt"])

p("C02", "A message can be opened once, and not with keys kept after opening it",
  "Once a message has been decrypted successfully, delivering the same message again never yields its content, at any later point of the conversation. A copy of either party's key store taken after the message was sent and opened does not contain the key that opens it, and the recipient's no longer holds the private session key it was sent to, unless that is a published one.",
  ["histories", "crash_points"], "every bounded two-party history, with every already-opened message redelivered after every step, and every key store snapshot",
  "Tests check a single replay; a replay must fail after any continuation of the conversation.",
  ["msg/decrypt.go", "msg/encrypt.go", "msg/keys.go", "msg/session/memstore/memstore.go", "keydb/session.go", "keydb/keydb.go"],
  [("message keys deleted after use", "msg/decrypt.go Decrypt -> KeyStore.DelMessageKey"),
   ("sender keys deleted after use", "msg/encrypt.go Encrypt -> KeyStore.DelMessageKey")],
  [("message keys", "one key per message, direction and session", "session.Store GetMessageKey/DelMessageKey")],
  ["Decrypt result on redelivery"])

p("C03", "A modified, truncated or misdirected encrypted message is never accepted",
  "An encrypted message that was altered in any byte (up to the one bit of the header key that the key exchange ignores), cut short, or spliced together from packets of other genuine messages is never accepted as a valid message, and receiving it does not keep the genuine message from being opened afterwards. A genuine message handed to someone other than its recipient, including its own sender, is never accepted either.",
  ["inputs", "fault_sequences"], "every byte position with several alterations, every truncation class, every packet swap/duplication/drop between genuine messages, every wrong recipient",
  "Tests alter a few chosen packets; the guarantee is for every byte and every splice of genuine material.",
  ["msg/decrypt.go", "msg/preheader.go", "msg/header.go", "msg/outer.go", "msg/inner.go", "msg/keys.go"],
  [("trailing authentication code over all packets", "msg/decrypt.go Decrypt HMAC verification"),
   ("packet order and type checks", "msg/outer.go readOuterHeader, msg/inner.go"),
   ("reflection check", "msg/keys.go checkKeys")], (), ["error of Decrypt"])

p("C04", "Every encrypted message has the same size, and oversized content is refused",
  "The encoded size of an encrypted message is one fixed number of bytes, independent of the content's length, of whether it is signed, and of whether it starts or continues a session. Content of any length up to the documented maximum decrypts to itself; longer content is refused rather than truncated.",
  ["inputs", "histories"], "a dense set of content lengths including all packet-boundary neighbourhoods, times {signed, unsigned} x {first message, established session, status variants}",
  "Tests use the maximal and a few small lengths only.",
  ["msg/encrypt.go", "msg/msg.go", "msg/padding/padding.go", "msg/inner.go"],
  [("padding to a fixed content area", "msg/encrypt.go Encrypt, msg/padding/padding.go Generate"),
   ("size limit", "msg/msg.go MaxContentLength")], (), ["length of the encoded message", "error of Encrypt"])

p("C05", "A content signature is reported valid only for the sender's exact content",
  "A decrypted message is reported as signed exactly when its sender signed it, and the reported signature verifies under the sender's signature key over exactly the delivered content. A message whose signature was made with another key, or whose stated sender, sender key and enclosed identity message do not belong together, is refused.",
  ["inputs", "histories"], "every combination of signer, claimed sender, session position and content length class",
  "The tests exercise honest senders only.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/inner.go", "msg/header.go"],
  [("signature over content hash", "msg/encrypt.go Encrypt signature packet"),
   ("verification on receipt", "msg/decrypt.go Decrypt signature packet")], (), ["signature and error of Decrypt"])

p("C06", "The key database stores and returns exactly the session state written to it",
  "After any sequence of key database operations (storing, updating, taking and deleting session states, sessions, message keys, session keys, user and contact identities, key entries, hash-chain positions and settings) each later read returns exactly what was last written for that key and nothing for what was deleted. Message keys stay attached to their own session and direction, also when a session is updated or others are added, and everything survives closing and reopening the database.",
  ["histories", "crash_points"], "all operation sequences up to a depth over a small universe of identities, sessions and indices, compared with a reference model, with reopen as an operation",
  "Unit tests write and read one row per table; mix-ups need several sessions, updates and interleaved operations.",
  ["keydb/keydb.go", "keydb/session.go", "keydb/sessionstate.go", "keydb/sessionkey.go", "keydb/keyvalue.go", "cryptengine/keystore.go"],
  [("session insert or update with message keys", "keydb/session.go AddSession"),
   ("message key get/delete", "keydb/session.go GetMessageKey, DelMessageKey"),
   ("identity, key entry and hash chain tables", "keydb/keydb.go")],
  [("tables", "KeyValueStore, PrivateUIDs, PrivateKeyEntries, PublicUIDs, PublicKeyEntries, SessionStates, Sessions, MessageKeys, SessionKeys, Hashchains", "keydb/keydb.go")],
  ["return values of the key database API"])

p("C07", "An encrypted database opens only with its passphrase, across crashes",
  "A created database opens with its passphrase (any text without NUL bytes) and no other, keeps its content across closing, is never overwritten by another creation, and after a passphrase change opens with the new one only. If a passphrase change or a write is interrupted or fails at any file system step, the database afterwards opens with exactly one of the old and the new passphrase with its content intact, and the change can be retried.",
  ["inputs", "crash_points", "histories"], "all passphrase pairs from a boundary set, all short create/open/rekey/close histories, every prefix of file system effects of a rekey or create",
  "Tests rekey once with two passphrases and never interrupt.",
  ["encdb/encdb.go", "encdb/keyfile.go"],
  [("key file with password-derived key", "encdb/keyfile.go generateKeyfile, ReadKeyfile"),
   ("atomic key file replacement", "encdb/keyfile.go replaceKeyfile"),
   ("create/open/rekey", "encdb/encdb.go Create, Open, Rekey")],
  [("key file", "iterations, salt, encrypted database key", "encdb/keyfile.go")], ["Open result", "files on disk"])

p("C08", "The message database neither loses, duplicates nor reorders queued mail",
  "For every history of queueing, encrypting, resending, retracting and removing outgoing mail, and of adding, delivering and dropping incoming mail, the message database hands out for each user identity the oldest pending item first, in its last recorded form. It keeps it until it is explicitly removed, marks a message as sent only when it left the queue, and never shows an undelivered or removed item.",
  ["histories"], "all operation sequences up to a depth over two user identities and a few messages, compared with a reference model",
  "Tests walk one message through each queue once.",
  ["msgdb/outqueue.go", "msgdb/inqueue.go", "msgdb/messages.go", "msgdb/msgdb.go"],
  [("outgoing queue", "msgdb/outqueue.go AddOutQueue, GetOutQueue, SetOutQueue, RemoveOutQueue, SetResendOutQueue, RetractOutQueue"),
   ("incoming queue", "msgdb/inqueue.go AddInQueue, GetInQueue, SetInQueue, DelInQueue, RemoveInQueue"),
   ("messages", "msgdb/messages.go AddMessage, ReadMessage, DelMessage, GetMsgIDs")],
  [("queues", "OutQueue, InQueue, Messages rows", "msgdb/msgdb.go")], ["return values of the message database API"])

p("C09", "Data of the user's identities never mix, and are deleted together",
  "Contacts, account settings, queues and messages recorded for one of a user's identities are never returned for or changed through another one. Black-listed, white-listed and unknown correspondents stay distinguished through every sequence of additions, edits, blocks and removals, and deleting an identity removes everything recorded for it and nothing else.",
  ["histories"], "all operation sequences up to a depth over two identities, two contacts and both account kinds, compared with a reference model",
  "Tests operate on a single identity.",
  ["msgdb/nyms.go", "msgdb/contacts.go", "msgdb/accounts.go", "msgdb/messages.go", "msgdb/cache.go", "msgdb/keyvalue.go", "msgdb/msgdb.go"],
  [("contact rows with black/white/gray status", "msgdb/contacts.go AddContact, GetContact, GetContacts, RemoveContact"),
   ("account rows", "msgdb/accounts.go AddAccount, SetAccountTime, SetAccountLastMsg, GetAccount, GetAccounts"),
   ("identity rows and cascades", "msgdb/nyms.go AddNym, DelNym"),
   ("message id cache", "msgdb/cache.go AddMessageIDCache, GetMessageIDCache, RemoveMessageIDCache")],
  (), ["return values of the message database API"])

p("C10", "A key server's hash chain is stored in place, validated, and searched safely",
  "Synchronising stores only entries the server sent, at the consecutive positions after those already stored, never changes a stored entry, and fails if the answer leaves out any; validation accepts a stored chain exactly if every entry has the right form and is linked by its hash to the one before (the first to 32 zero bytes) and the entries of one's own identity messages are the recorded ones. A search or lookup stores an identity message only if it is valid, belongs to the identity looked for, is the one its hash chain entry refers to, is signed by itself and, except the key server's own first one, signed by the key server's key valid at that position; all such messages it meets are stored. No answer of a key server crashes the client, makes a command report success for something not done, or spoils what a later synchronisation with an honest server gives.",
  ["fault_sequences", "histories"], "every single corruption of every field of every answer of a model key server; all histories of an honest, lying, growing and changing server up to a depth; all short chains of correct and incorrect entries",
  "No test runs the synchronisation code against any server.",
  ["cryptengine/hashchain.go", "keyserver/hashchain/hashchain.go", "keydb/keydb.go", "uid/uid.go"],
  [("fetching and storing entries", "cryptengine/hashchain.go syncHashChain"),
   ("full validation", "cryptengine/hashchain.go validateHashChain"),
   ("taking over identity messages", "cryptengine/hashchain.go searchHashChain, lookupHashChain, fetchUID, verifyServerSig"),
   ("entry layout", "keyserver/hashchain/hashchain.go SplitEntry")],
  [("hash chain", "position -> entry per domain", "keydb Hashchains table")], ["stored chain", "stored identity messages", "exit status of the command"])

p("C11", "An identity message is accepted only if every signed field is unaltered",
  "An identity message produced by the system passes verification; changing any field that its signatures cover makes verification fail, and an update is accepted only when the previous version's key authorised it and it is its immediate successor. A key server's reply is accepted only if it was signed by the server's key and decrypts to exactly the identity message it was requested for, and identity messages survive encoding, encryption and decoding unchanged. No altered or malformed identity message or reply crashes the client.",
  ["inputs"], "every field of every message variant altered in several ways, every byte of encoded replies and encrypted identities, every pair of versions as an update",
  "Tests verify one honest message and alter almost nothing.",
  ["uid/uid.go", "uid/keyentry.go", "uid/errors.go", "cryptengine/uid.go"],
  [("content signatures", "uid/uid.go VerifySelfSig, VerifyUserSig, VerifySrvSig, CheckUserSig, Check"),
   ("encryption of identities on the key server", "uid/uid.go Encrypt, MessageReply.Decrypt")], (), ["verification errors"])

p("C12", "Key initialisation messages prove which identity published which session key",
  "A key init message is accepted only when it is signed by the signature key of the identity it was published for, belongs to that key and covers the announced session anchor, is not expired, and has sane times; altering any part of it, substituting another identity's, or presenting it expired makes verification fail with an error and never a crash. A genuine one yields exactly the session key that was published, its private part stays with the publisher, and messages with times, repositories or sizes that verification refuses are not created.",
  ["inputs"], "every field and every byte of the encoded forms altered, all pairs of identities, all positions of the current time relative to the validity bounds",
  "Tests verify one honest message.",
  ["uid/keyinit.go", "uid/keyentry.go", "cryptengine/keyinit.go"],
  [("signature and validity check", "uid/keyinit.go Verify, KeyEntry, SessionAnchor"),
   ("published key check", "uid/keyentry.go Verify, NewJSONKey")], (), ["verification errors and returned key"])

p("C13", "Identity names are normalised consistently and safely",
  "Two spellings name the same account exactly when normalisation maps them to the same text; normalisation is stable when repeated, yields only characters that the check for normalised names accepts, and keeps the domain. Names outside the documented form are refused.",
  ["inputs"], "all strings up to a bounded length over an alphabet covering each character class",
  "Tests list a few dozen names.",
  ["uid/identity/identity.go", "uid/domain"],
  [("mapping", "uid/identity/identity.go Map, MapPlus, IsMapped, Split")], (), ["mapped names and errors"])

p("C14", "Mix messages open to exactly what was sealed, or to an error",
  "A message sealed for the mix network opens at the mix to the same addressee, token, delays, revocation secret and body, and from there reaches exactly the recipient whose address it bears, as the bytes that were sealed; its size depends on the sizes of its parts only. Altering, cutting or recombining it on either part of its way yields an error or (for the one bit the key exchange ignores) the same content. Arbitrary bytes, including ill-formed content sealed correctly for the mix, yield an error and never a crash.",
  ["inputs"], "all field-length combinations from a boundary set, every byte position altered, every truncation, all short byte strings",
  "Tests seal one message per kind.",
  ["mix/mixcrypt/clientmix.go", "mix/mixcrypt/mixclient.go", "mix/mixcrypt/envelope.go", "mix/mixcrypt/common.go"],
  [("header layout", "mix/mixcrypt/clientmix.go ClientMixHeader Marshal/Unmarshal"),
   ("sealing and opening", "mix/mixcrypt/envelope.go"),], (), ["recovered fields and errors"])

p("C15", "A nym address opens only for its mix, and only to what it was made from",
  "A nym address decrypts with the private key of the mix whose address was chosen to exactly the mailbox, identity hash, expiry and send-mode settings it was made from. Altered in any way, cut, recombined or opened with another key it yields an error or that same private content, never other content, and once expired it stays refused whatever its public part says; the recipient accepts only the header made from it, for its own mailbox and secret. Different identities get different pseudonym hashes, and mixes whose key expires before the address are never chosen.",
  ["inputs"], "all settings combinations and mailbox length classes, every byte altered, every truncation, all validity positions of mix addresses",
  "Tests build one address.",
  ["mix/nymaddr/addr.go", "mix/nymaddr/crypt.go", "util/nymaddr.go"],
  [("address creation", "mix/nymaddr/addr.go NewAddress"), ("address opening", "mix/nymaddr/addr.go ParseAddress, GetMixData"), ("mailbox encryption", "mix/nymaddr/crypt.go")], (), ["recovered fields and errors"])

p("C16", "Published mix address statements carry only authentic, unexpired keys",
  "The signed statement of a mix lists, after each addition, expiry or loading of keys, exactly its unexpired addresses, verifies under the mix's signing key, and stops verifying when any part is altered. Private keys are found exactly for the addresses that were published and have not expired, also after saving and loading the key list, whatever the order of adding, expiring, loading and publishing.",
  ["histories", "inputs"], "all operation sequences up to a depth over additions, expiry, save/load and statement requests, every field of a statement altered",
  "The package's tests do not build; the lifecycle is unchecked.",
  ["mix/mixaddr/addrlist.go", "mix/mixaddr/privkey.go"],
  [("signed statements", "mix/mixaddr/addrlist.go AddressStatement Verify"), ("key list lifecycle", "mix/mixaddr/privkey.go AddressKeyList")], (), ["statements and private keys returned"])

p("C17", "Mail survives MIME encoding and splitting into chunks unchanged",
  "A mail with any subject, body and attachments parses back to the same subject, body, attachment names and contents. Splitting a mail into chunks, in any chunk size, and joining them again in any order of arrival restores the mail, and malformed or truncated input yields an error rather than a crash.",
  ["inputs", "schedules"], "all combinations of bounded subjects, bodies and attachments from a boundary alphabet, all chunk sizes and arrival orders up to a bound, every truncation point",
  "Tests round-trip a few fixed mails.",
  ["msg/mime/mime.go"],
  [("composition and parsing", "msg/mime/mime.go New, Parse"), ("chunks", "msg/mime/mime.go SplitMessage, EncodeChunks, DecodeChunk")], (), ["parsed parts"])

p("C18", "A wallet token is handed to one holder at a time and never silently vanishes",
  "In every history of storing, locking, unlocking, using, expiring and deleting tokens, a locked token is not handed to or changed by anyone without its lock until the lock is released or too old, and lookups return exactly the tokens with the requested usage, owner and renewability. Balances count each spendable token exactly once, a token is only discarded when used or expired, and all of it, with the stored credential and keys, survives a restart and a crash in the middle of an operation.",
  ["histories", "schedules", "crash_points"], "all operation sequences up to a depth over a few tokens with different owners, usages and expiries, with restart and lock ageing as operations, compared with a reference model; a crash after every database statement",
  "The store's tests do not build; lock conflicts need interleaved holders.",
  ["serviceguard/client/walletstore/store.go", "serviceguard/client/walletstore/types.go", "serviceguard/client/walletstore.go"],
  [("locks", "serviceguard/client/walletstore/store.go LockToken, UnlockToken, CleanLocks, GetToken"),
   ("lookup", "serviceguard/client/walletstore/store.go FindToken, GetAndLockToken, GetExpire, GetInReissue"),
   ("expiry", "serviceguard/client/walletstore/store.go ExpireUnusable")],
  [("wallet rows", "walletTokens, walletState", "walletstore/store.go")], ["results of the wallet store API"])

p("C19", "Wallet token exchange survives server failures without losing or forging tokens",
  "Whatever the wallet, issuer and key servers answer and wherever an exchange is interrupted, the client either obtains a token that verifies and belongs to the requested owner or still holds what it needs to finish the exchange on a later attempt. It never accepts a token that does not verify under the issuer's published keys, never reports success without a token, and never crashes or blocks for good.",
  ["fault_sequences", "crash_points", "histories"], "every single and double fault from a fault alphabet injected at every server interaction of every client operation, followed by retries with healthy servers",
  "There is no test that runs the client against any server offline.",
  ["serviceguard/client/clientlib.go", "serviceguard/client/reissue.go", "serviceguard/client/verify.go", "serviceguard/client/receive.go", "serviceguard/client/walletserver.go", "serviceguard/client/packetproto/methods.go", "serviceguard/client/runner.go"],
  [("reissue with stored parameters", "serviceguard/client/reissue.go"), ("token retrieval", "serviceguard/client/clientlib.go GetToken, walletserver.go WalletToken"), ("unblinding and verification", "serviceguard/client/packetproto/methods.go Unblind")],
  [("wallet store", "tokens and outstanding exchange parameters", "walletstore")], ["tokens returned and stored"])

p("C20", "Service tokens, requests and credentials verify only when wholly unaltered",
  "Tokens, exchange and spend requests, issuer keys and wallet credentials verify exactly when they were produced by the holder of the right key and none of the data they cover was changed; decoding what was encoded restores it. A server's report of a replayed credential is recognised with its counter, and no malformed input makes verification crash.",
  ["inputs", "histories"], "every field and every byte of every encoded object altered, all key pairs exchanged, all short malformed inputs",
  "Most of these packages' tests do not build.",
  ["serviceguard/common/token/types.go", "serviceguard/common/types/types.go", "serviceguard/common/signkeys/keys.go", "serviceguard/common/walletauth/walletauth.go"],
  [("token hash and owner", "serviceguard/common/token/types.go Token Hash, Marshal, Unmarshal, CheckOwner"), ("request signatures", "serviceguard/common/types/types.go ReissuePacket/SpendPacket Image, Sign, Verify"), ("wallet credentials", "serviceguard/common/walletauth/walletauth.go CreateToken, CheckToken")], (), ["verification results"])

p("C21", "Only authentic, currently valid issuer keys are used, and stored keys come back",
  "A pool of issuer keys serves a key only if it was signed by an accepted signer, is unaltered, has the expected usage and is not expired, whether it came from memory, storage or a fetch callback. Keys written to directory or database storage are found again exactly, in any order of registration, and concurrent lookups never corrupt the pool.",
  ["histories", "inputs", "schedules"], "all operation sequences up to a depth over keys with different usages, signers and expiries and both storages, every field altered, concurrent lookups under the race detector's scheduler bounds",
  "The packages' tests do not build.",
  ["serviceguard/common/keypool/generator.go", "serviceguard/common/keypool/keydir/filestorage.go", "serviceguard/common/keypool/keydb/dbstorage.go", "serviceguard/common/signkeys/keys.go"],
  [("acceptance", "serviceguard/common/keypool LoadKey, Lookup, Current"), ("storage", "keydir, keydb storage callbacks")], (), ["keys returned"])

p("C22", "Client configuration is accepted only if signed, timely and not rolled back",
  "A client configuration is installed only when its signature verifies under the built-in key over exactly the delivered settings, its signing time is close to the present and not older than the one already installed, and any CA certificate it pins matches. Otherwise the installed configuration stays as it was; servers are tried in priority order until one delivers, and no server answer crashes the client.",
  ["inputs", "fault_sequences", "histories"], "every field of the configuration altered, all positions of signing times, all outcome combinations of up to three servers with all priority assignments, all short update histories",
  "Tests cover the server list parser and one honest map.",
  ["configclient/client.go", "configclient/sortedmap/map.go", "configclient/sortedmap/signedmap.go", "configclient/roundrobin/roundrobin.go", "configclient/cahash/hash.go"],
  [("signature over the sorted map", "configclient/sortedmap/signedmap.go Certify"), ("update with failover", "configclient/client.go Update"), ("priority order", "configclient/roundrobin/roundrobin.go Order")],
  [("installed configuration", "last sign date, map, CA", "configclient Config")], ["Config fields after Update", "requests seen by the servers"])

p("C23", "The editor's text buffer reads back exactly the text it was given",
  "A text buffer built from any UTF-8 text returns each line, character and cell as a reference layout of that text does (wide, combining and control characters included) and writes back the original text, but for the space put before a combining character at a line's start. Reading positions outside the text, negative ones included, never crashes and never returns a character, and the editor always shows a window of the text that contains its cursor.",
  ["inputs"], "all texts up to a bounded length over an alphabet with one member of each rune class",
  "Tests use a few sample lines.",
  ["tui/textbuffer/textbuffer.go", "tui/editor/editor.go", "tui/editor/model.go", "tui/editor/view.go"],
  [("layout", "tui/textbuffer/textbuffer.go New, GetCell, GetChar, GetRune, LineLenCell"), ("output", "tui/textbuffer/textbuffer.go Write"), ("cursor and display", "tui/editor/model.go limitCursor, tui/editor/view.go Draw, HandleEvent")], (), ["returned runes and positions"])

p("C24", "Encodings decode to what was encoded and refuse everything else",
  "Each of the system's elementary encodings (fixed-size integers, base64, decimal digits, padding, message identifiers, symmetric encryption, mail wrapping and stored mix message records) decodes every encoded value to itself. Inputs of the wrong length or form are refused (with an error or the documented panic) instead of being misread.",
  ["inputs"], "all values or byte strings up to a bound per encoding, plus every altered byte or truncation of encoded forms",
  "Tests sample a few values per encoding.",
  ["encode/convert.go", "encode/base64/base64.go", "util/digits/digits.go", "msg/padding/padding.go", "msg/msgid/msgid.go", "mix/client/io.go", "mix/client/send.go", "cipher/aes256/aes256.go"],
  [("integer encodings", "encode/convert.go"), ("symmetric encryption", "cipher/aes256/aes256.go"), ("mail wrapping", "mix/client/io.go"), ("message records", "mix/client/send.go MessageOutput Marshal/Unmarshal")], (), ["decoded values and errors"])

p("C25", "Sending and fetching lose, duplicate or leak no mail when a step fails",
  "Whatever step of sending or fetching fails or is interrupted, the client afterwards still holds every message it accepted for sending until the mix network took it, and every message it fetched until it was delivered to the user. Retrying after the failure sends each message at least once with a fresh token where one was consumed, delivers each fetched message exactly once, and never delivers mail for another identity.",
  ["fault_sequences", "crash_points"], "every step of the send and fetch procedures failing once or twice in every way the helper processes can fail, followed by healthy retries",
  "No test runs the control engine.",
  ["ctrlengine/msg.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "protoengine/create.go", "protoengine/deliver.go", "protoengine/fetch.go"],
  [("outgoing queue processing", "ctrlengine/msg.go procOutQueue"), ("fetching", "ctrlengine/msg.go muteprotoFetch"), ("incoming queue processing", "ctrlengine/msg.go procInQueue")],
  [("queues", "pending mail", "msgdb")], ["mail accepted by the mix stub and shown to the user"])

p("C26", "Correspondents' standing decides what happens to their mail",
  "Mail from a blocked correspondent is dropped, mail from a known one is delivered, and an unknown sender is recorded as unknown rather than as a known contact. Adding, editing, blocking, unblocking and removing contacts through the user's commands has exactly the documented effect on that standing, for every order of the commands.",
  ["histories"], "all command sequences up to a depth over two contacts and two identities, driven through the command line of the control engine",
  "No test runs the control engine.",
  ["ctrlengine/contact.go", "ctrlengine/msg.go", "msgdb/contacts.go"],
  [("contact commands", "ctrlengine/contact.go contactAdd, contactEdit, contactRemove, contactBlock, contactUnblock"), ("gray list on receipt", "ctrlengine/msg.go procInQueue")], (), ["contact lists", "delivered mail"])

p("C27", "Only a logged-in browser reaches the user's web application",
  "Pages and data of the local web application other than the login page are served only to requests carrying the session secret issued at a successful login. No request, however malformed, gains access without it or crashes the handler.",
  ["inputs", "histories"], "all request sequences up to a depth over methods, paths, cookie values and form contents",
  "No test touches the web application.",
  ["ctrlengine/app.go"],
  [("login", "ctrlengine/app.go loginHandler"), ("cookie check", "ctrlengine/app.go staticHandler")], (), ["status and body of responses"])

p("C28", "Keys are agreed and derived the same way by both ends and never reflected",
  "Two parties always derive the same secret from each other's public keys, message keys are never shared between directions, sessions or correspondents, and a key exchange of a key with itself is refused. Signatures verify exactly under the signer's key for the exact message, and private keys survive being stored and restored.",
  ["inputs"], "all ordered pairs of a set of keys including degenerate ones, every byte of signatures, messages and keys altered",
  "Tests derive one pair.",
  ["cipher/curve25519.go", "cipher/ed25519.go", "cipher/naclbox.go", "cipher/ckdf.go", "cipher/sha.go", "uid/keyentry.go"],
  [("key agreement with reflection check", "cipher/curve25519.go ECDH"), ("signatures", "cipher/ed25519.go"), ("key derivation", "cipher/ckdf.go CKDF")], (), ["derived secrets and errors"])

p("C29", "A conversation's keys are renewed, and stolen copies of them become useless",
  "Whatever two correspondents have sent before, whichever of it crossed, overtook or was lost, and whoever of them starts renewals: as long as both keep writing, the keys of their conversation are renewed after a few messages in each direction. A copy of either party's key store taken before then opens none of the messages sent to that party afterwards.",
  ["histories", "interleavings"], "every bounded history of two parties (sends with and without starting a renewal, deliveries in any order); from every state of it every continuation: who writes first, what becomes of the mail under way, who starts renewals",
  "Tests follow one course of a renewal; it must come about from every state two parties can get into.",
  ["msg/decrypt.go", "msg/encrypt.go", "msg/session.go", "msg/session/session.go", "msg/keys.go"],
  [("session update", "msg/decrypt.go Decrypt, NextSenderSessionPub and NextRecipientSessionPubSeen"),
   ("spontaneous renewal", "msg/encrypt.go Encrypt, AvgSessionSize"),
   ("first messages crossing", "msg/decrypt.go Decrypt, KeyInitSession")],
  [("session state", "announced and seen next session keys of both sides", "session.Store Get/SetSessionState")],
  ["Decrypt result on copies of the key store"])

p("C30", "Mails and account requests mean what the servers' answers say",
  "Sending a mail is reported as a success exactly if the mail server took it and as a final failure exactly if the refusal is permanent, what is to be tried again is tried unchanged and never after a success, and neither mail nor credentials go out before TLS with a server certified by the given CA. Requests of an account (payment, state, deletion, message list, message) go to the server of the account over such a connection, authenticated by the account's key with a counter above the last one the server reports. They, revocations and mix key requests return exactly what the server answered and report every other answer as an error, never as a crash, a partial or an invented result.",
  ["inputs", "fault_points"], "every combination of client settings, server offers, certificate and failing step of a mail dialogue with each class of answer; every history of two deliveries; every single alteration of every answer of the account server and mix, every number and distance of counter refusals",
  "Tests talk to servers that answer properly, or need the network; misleading answers, and answers lost at each step, are untested.",
  ["mix/smtpclient/client.go", "mix/client/send.go", "mix/client/accountrpc.go", "mix/client/receive.go", "mix/client/mixrpc.go", "util/jsonclient/jsonclient.go", "serviceguard/common/walletauth/walletauth.go"],
  [("mail dialogue", "mix/smtpclient/client.go SendMail"), ("resend state", "mix/client/send.go Deliver"),
   ("account calls", "mix/client/accountrpc.go"), ("message download", "mix/client/receive.go FetchMessage"), ("mix calls", "mix/client/mixrpc.go")],
  [], ["what the servers receive", "result and error of the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e) + "\n")
