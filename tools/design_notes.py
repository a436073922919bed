"""What tools/design.py adds to the table: costs, notes, results of planted bugs."""
COST = dict(C01=52, C02=65, C03=52, C04=36, C05=5, C06=32, C07=22, C08=38, C09=30, C10=25, C11=60, C12=18, C13=6,
            C14=9, C15=7, C16=23, C17=6, C18=50, C19=150, C20=56, C21=25, C22=10, C23=12, C24=6, C25=280, C26=143, C27=60, C28=33, C29=60, C30=25)
NOTES = {
 "C03": ["**Corrected statement**: X25519 ignores the top bit of a public key, so altering that one bit yields the same message; bytes after the last packet are not part of the message. Both are excluded in the statement rather than in the oracle only."],
 "C25": ["The programs announce their steps through a database driver that wraps the real one (linked into the test build of the programs only) and a "
         "control socket; nothing in /repo is hooked. Doubt: if the mix took a mail and the sender cannot know, sending it again is demanded "
         "(at least once), not forbidden."],
 "C14": ["**Corrected statement**: same bit of the header's public key as in C03; the size of a sealed message depends on the sizes of its parts by design of the mix's fixed-size envelope outside."],
 "C22": ["**Corrected**: a configuration, signed by the authority, that pins an empty CA hash while no CA is installed counts as pinning none."],
 "C23": ["**Corrected statement**: a space is put before a combining character at the start of a line (documented in the code)."],
}
CAUGHT = {b: "the check of its property (quick)" for b in """late-batch-key old-session-replay unsigned-padding-mac header-pad-both-next
 signature-trailing-newlines session-state-next-seen rekey-remove-first resend-reopens-envelope account-time-first-account reply-index-unchecked recorded-entry-last-position
 fallback-never-expires mapped-domain-case nym-key-without-mailbox mix-expiry-32bit chunk-single-last-byte set-token-drops-lock
 ownerless-hash generator-serves-expired config-rollback-without-ca buffer-drops-carriage-return edit-unblocks
 private-key-aliased crossing-start-sticks sent-mail-kept""".split()}
CAUGHT["same-length-names"] = "missed at first (all names were of different lengths); caught since C01 also uses identities of equal length"
CAUGHT["refusal-500"] = "missed at first; caught since C30 answers with the code 500 too"
CAUGHT["statement-to-others"] = "missed at first; caught since C16 adds statements to lists that are not empty"
CAUGHT["single-use-by-public-part"] = "missed at first; caught since C14 also alters the public part of the address"
CAUGHT["first-source-only"] = "missed at first; caught since C21 also chains sources of keys"
CAUGHT["usage-unnamed-accepted"] = "missed at first (no key was made without a usage); caught since C21 tries pools and keys of every pair of usages"
CAUGHT["resize-loses-cursor"] = "missed at first; caught since C23 also changes the size of the screen"
CAUGHT["oldest-text-first"] = "missed at first; caught since C08 also lets the clock go backwards"
CAUGHT["long-mail-cut"] = "missed at first; caught since C24 also breaks the lines of mails near the largest size anew"
