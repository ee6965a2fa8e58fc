#!/usr/bin/env python3
"""Writes known_findings.json from the list below and the fix commits of /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 ("KF-BCRYPT-PW", "C01", "passwords that bcrypt cannot tell apart (equal in the first 72 bytes of the NUL-terminated, repeated key) are accepted for each other, although the default policy allows 128 bytes"),
 ("KF-BCRYPT-API", "C10", "an API key longer than 72 characters is accepted with any change beyond its 72nd byte, because bcrypt ignores the rest"),
 ("KF-AT-USERNAME", "C01", "a user whose username contains an at sign (which AddUser accepts) cannot sign in with the username, because sign-in treats it as an e-mail address"),
 ("KF-POLICY-BYTES", "C22", "the advertised password expression and summary count characters while the policy counts bytes, so a password of multi-byte characters matching the expression is refused when its bytes exceed the maximum length"),
 ("KF-QR-SPACE", "C20", "the label of an otpauth URI is form-encoded (pinned by TestNewCode), so a reader of URI paths sees a plus sign in place of each space of the label"),
]
FIXED = [
 ("C06", "90ea2a7", "the file was rewritten in place: a crash or a full disk during a commit left a truncated database"),
 ("C09", "76e96f9", "Copy changed the path of the live database for a moment: concurrent readers and a failing copy saw or kept the other path"),
 ("C07", "bfedb3f", "a failed commit left revision and modification time advanced"),
 ("C07", "7f22edb", "a failed commit left the change of the user in memory"),
 ("C01", "7e7b368", "passwords were trimmed before hashing, so that the password as provided did not sign in"),
 ("C10", "148d253", "disabled and expired API keys were accepted"),
 ("C02", "ceb6d6d", "one former password more than the policy asks for was kept"),
 ("C23", "0c90367", "a request used for more than one identification kept the name, roles and flags of the previous user, also for unknown users"),
 ("C23", "a211237", "no hashing work for blank passwords of unknown users"),
 ("C25", "dd33216", "a failed WebAuthn sign-in did not state its cause"),
 ("C19", "301b552", "random strings, and with them key and token IDs and API keys, came from a generator seeded with the time; equal bounds panicked"),
 ("C09", "67afcc9", "verifying WebAuthn wrote to the shared token"),
 ("C09", "c17241b", "GetUser returned the live user"),
 ("C16", "b9c2a9f", "a U2F registration with mistyped public key parameters panicked"),
 ("C17", "f781022", "null entries in a file were accepted and panicked later"),
 ("C17", "f8c5d72", "a file without policy was rewritten before it was validated"),
 ("C04", "d382a49", "users with short usernames or e-mail addresses were not found"),
 ("C11", "c191ae7", "the same public key in another format was stored twice"),
 ("C11", "c792296", "OpenSSH and PGP keys with mismatching usage were accepted"),
 ("C05", "0474583", "a database at a path below ~ was created in a directory named ~"),
 ("C05", "a204905", "text that is not UTF-8 was accepted and altered in the file"),
 ("C15", "c51ecea", "U2F registrations without a P-256 public key were accepted"),
 ("C20", "9438737", "a refused build of a code description left the URI of the previous build"),
 ("C31", "e86637a", "the comment of an OpenPGP key with several identities named a random one of them"),
]
out = [dict(id=i, property=p, status="open", what=w) for i, p, w in OPEN]
for p, c, w in FIXED:
    out.append(dict(id="FIX-" + c, property=p, status="fixed", commit=c, what="fixed: property=%s %s %s" % (p, c, w)))
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in out) + "\n]}\n")
