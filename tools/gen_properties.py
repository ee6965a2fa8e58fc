import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Password sign-in accepts exactly the user's current password",
"A password sign-in succeeds (response code 200, no error) exactly when the identifier, a username or an e-mail address in any letter case, names a user of the database and the presented password is identical to the one most recently set for that user. Every other attempt (unknown identifier, former password, somebody else's password, truncated, extended, re-cased or whitespace-padded password, empty password) returns an error with response code 400. A password accepted when a user is added or a password is changed always signs that user in verbatim.",
["inputs","histories"],"all passwords allowed by policy, all identifiers, all histories of adding users and changing passwords, including restarts",
"TestDatabaseAuthentication tries eight fixed attempts on two alphanumeric passwords; it never tries padded, long, non-ASCII or former passwords, letter-case variants or restarts",
["database.go","user.go","password.go"],
[("AuthenticateUser","database.go"),("VerifyPassword skips disabled/expired","user.go"),("bcrypt hash and compare","password.go")],
observe=["Database.AuthenticateUser error and Response.Code"])

p("C02","Password rotation leaves exactly one active password and bounded history",
"A password change takes effect only when the request names an existing user by matching username and e-mail, gives the current password, and the new one satisfies the policy; afterwards only the new password signs in, and former passwords never do again. Exactly one stored password of the user is active, the newest former ones are kept disabled and newest first, and never more of them than the policy's number of versions to keep. A refused change leaves every password of every user as it was.",
["inputs","histories","configurations"],"all sequences of accepted and refused changes of any length, for any number of versions to keep, interleaved with other operations and restarts",
"TestDatabaseChangeUserPassword performs a single successful change; history trimming starts only after keep_versions changes and is never reached",
["database.go","user.go","password.go"],
[("ChangeUserPassword","database.go"),("AddPassword disables and trims former passwords","user.go")],
observe=["stored passwords in the database file and in GetUser","AuthenticateUser with former passwords"])

p("C03","Usernames, e-mails and user IDs stay unique and every user stays reachable",
"At every moment no two users share a username or an e-mail address, compared without letter case, or a user ID; adding a user that would collide is refused. A user that was added is counted, listed exactly once, and can be found by its username and by its e-mail address in any letter case, now and after reopening the database. Users are never lost, replaced or reordered.",
["inputs","histories"],"all sequences of additions with colliding, near-colliding, minimal-length and case-variant names and addresses, with restarts",
"TestDatabaseAddUser tries one colliding username and one colliding e-mail with identical case; no test checks letter case, short names, ordering or restart",
["database.go","user.go","email.go","README.md"],
[("refUsername/refEmailAddress/refID indexes","database.go"),("duplicate checks in AddUser and NewDatabase","database.go")],
observe=["AddUser, GetUser, GetUsers, GetUserCount, IdentifyUser results","database file"])

p("C04","Management operations act only on the identity named by username and e-mail",
"Reading, listing, adding or deleting a user's keys, tokens or password is refused unless the given username and e-mail address, in any letter case, both exist and belong to the same user. An operation for one user never reveals or changes anything stored for another user: a key or token identifier of one user can neither be listed nor deleted through another.",
["inputs","histories"],"all pairs of usernames and e-mails (matching, crossed, unknown, case-variant) and all identifiers of keys and tokens, for every operation, over long multi-user histories",
"tests try one crossed pair for a few operations with two users and look only at the acting user's count",
["database.go","user.go"],
[("validateUserIdentity","database.go")],
observe=["each Database operation's error and payload","every other user's stored record before and after"])

p("C05","What an operation acknowledged is what a reopened database contains",
"After every operation that returned success, opening the database file afresh, or opening a copy written by the copy operation, yields a database that is indistinguishable from the live one: same users in the same order with the same names, e-mails, roles, passwords, keys, tokens and policy. Saving, copying and reopening, in any order and any number of times, lose nothing and never change which file the live database persists to.",
["histories","inputs"],"all histories of operations with reopen, save and copy at every position, and all field contents including non-ASCII text",
"only TestNewDatabase reopens a file, once, and compares just the user count",
["database.go","user.go"],
[("commit after every mutation","database.go"),("NewDatabase rebuilds indexes","database.go"),("JSON tags of stored types","user.go")],
observe=["database file bytes after each operation","NewDatabase on the file and on copies"])

p("C06","A crash or failed write never leaves a damaged database file",
"Whenever the process dies or a write fails at any point of an operation that stores the database, the database file contains either the complete state from before that operation or the complete state after it, and it can be opened. Anyone reading the file while operations are running sees only such complete states, in the order in which they were stored.",
["crash_points","fault_sequences","schedules"],"every system call and every byte offset of a store operation as the point of process death or write error, for create, change, save and copy operations; all instants at which a concurrent reader may look",
"no test kills the process, injects a write error inside a store, or reads the file concurrently",
["database.go","internal/utils/file.go"],
[("commit replaces the file","database.go")],
observe=["database file bytes after a killed or failed store","bytes seen by a concurrent reader"])

p("C07","A refused or failed operation changes nothing",
"When any operation returns an error, whether because the request was invalid or because the database could not be written, the live database and its file are exactly as they were before: same users, indexes, passwords, keys, tokens and revision. Subsequent operations, sign-ins and key lookups behave as if the failed operation had never been attempted, and a later successful operation does not bring its effects back.",
["inputs","fault_sequences","histories"],"all invalid requests and all write failures (target not writable, write cut short at any byte) for every mutating operation, at every position in a history",
"the tests that provoke a commit failure check only the error text, never the state afterwards",
["database.go","user.go"],
[("validation precedes mutation","database.go"),("commit error handling","database.go")],
observe=["every user's record, lists, lookups and file before and after the failed call"])

p("C08","Concurrent operations behave as if executed one at a time",
"Operations issued concurrently by any number of goroutines on one database, including sign-ins, additions, deletions, listings, saves and copies, return results and leave a state that some one-at-a-time execution respecting their real-time order would produce. No acknowledged change is lost, no uniqueness rule is broken by a race, and when all calls have returned the file on disk equals the live state.",
["schedules","histories"],"all interleavings of concurrent calls on shared and distinct users",
"no existing test uses more than one goroutine",
["database.go"],
[("database-wide RWMutex held across check, mutate and commit","database.go")],
observe=["call/return history of every operation","content of copies taken concurrently","final file and live state"])

p("C09","Concurrent use of the library is free of data races",
"Calling any operations of a database, using the users, tokens and keys those operations returned for reading and verification, and calling the constructors and random-string functions from any number of goroutines, on one or several databases, never causes a data race or a runtime crash. Results handed out earlier are not altered by later operations.",
["schedules"],"all pairs of concurrently running exported operations and reads of returned objects",
"no existing test uses more than one goroutine, and the suite is not run under the race detector",
["database.go","user.go","mfa_token.go","random.go","uuid.go"],
[("database-wide RWMutex","database.go"),("shared random source","random.go"),("key derivation in token verification","mfa_token.go")],
observe=["race detector reports","runtime fatal errors"])

p("C10","An API key works exactly while issued, enabled and not deleted",
"Looking up an API key succeeds exactly when the presented string is identical to a key that was issued to some user, was not issued disabled, and has not been deleted; it then reports that user's username and e-mail with response code 200. Altered, truncated, extended, foreign, disabled or deleted keys are refused. Listings show exactly the user's enabled keys, and all of this is unaffected by other users' keys, by deletions of neighbouring keys, and by restarts.",
["inputs","histories"],"all histories of issuing, disabling at issue, deleting and looking up keys across users and restarts, and all alterations of presented keys",
"no test calls AddAPIKey, LookupAPIKey, GetAPIKeys or DeleteAPIKey on a database at all",
["database.go","user.go","api_key.go"],
[("refAPIKey prefix index","database.go"),("LookupAPIKey match","user.go")],
observe=["LookupAPIKey, GetAPIKeys, DeleteAPIKey results"])

p("C11","Public keys are stored faithfully, once, and deleted exactly",
"An SSH or GPG public key is accepted only when its material is well-formed and fits the declared usage; the stored type, SHA-256, MD5 or OpenPGP fingerprint and the converted forms all denote the same key that was submitted, for the OpenSSH and the PEM encoding alike. The same key cannot be registered twice for a user in any encoding. Listings show exactly the user's enabled keys of the requested usage in order of addition, and deletion removes exactly the named key.",
["inputs","histories"],"all RSA key sizes and encodings, comments, whitespace, PGP keys, and all histories of additions and deletions",
"tests add a handful of freshly generated 2048-bit keys and compare only type and comment; fingerprints and converted forms are never checked",
["public_key.go","user.go","database.go"],
[("parsePublicKeyOpenSSH/RSA/PGP","public_key.go"),("duplicate check by type and fingerprint","user.go")],
observe=["stored key record versus independently computed fingerprints and blobs"])

p("C12","The MFA token registry, flags and challenges are consistent",
"A TOTP token is registered only with a passcode that is currently valid for its own secret and parameters and with algorithm, period and digits within the supported ranges, and no token is registered whose secret or comment duplicates another token of the same user. Listings show exactly the user's enabled tokens in order of addition and deletion removes exactly the named token. Identification of a user with an enabled token demands the additional mfa challenge and reports exactly the kinds of enabled tokens, while a user without tokens is asked only for the password.",
["inputs","histories"],"all token parameters and passcodes, and all histories of adding enabled or disabled tokens and deleting tokens across users and restarts",
"TestDatabaseUserMfaToken counts tokens of one user after six operations; challenges with tokens and the app/universal flags are never checked",
["database.go","user.go","mfa_token.go"],
[("AddMfaToken duplicate checks","user.go"),("NewMfaToken validation","mfa_token.go"),("GetFlags, GetChallenges","user.go")],
observe=["AddMfaToken, GetMfaTokens, DeleteMfaToken, IdentifyUser results"])

p("C13","TOTP validation accepts exactly the RFC 6238 codes of the adjacent steps",
"For every secret, algorithm (SHA-1, SHA-256, SHA-512), period and digit count a token supports, and every moment, a passcode is accepted exactly when, surrounding blanks aside, it is the RFC 6238 code with that many digits for the time step containing the moment or for the step immediately before or after it. Codes of any other step, of another length, non-numeric text or of other secrets are refused.",
["inputs"],"all secrets, algorithms, periods 30-300, digits 4-8, all times including step boundaries, and all candidate passcodes",
"TestNewMfaToken validates one self-generated 30-second 6-digit code per algorithm with the library's own generator, so a wrong algorithm would agree with itself",
["mfa_token.go"],
[("ValidateCodeWithTime","mfa_token.go"),("generateMfaCode","mfa_token.go")],
observe=["ValidateCodeWithTime and ValidateCode results"])

p("C14","A WebAuthn assertion is accepted only if genuine, fresh and for this key",
"A WebAuthn sign-in succeeds exactly when the assertion names an enabled registered hardware token of that user, its signature verifies under that token's registered public key over the presented authenticator data and client data, the client data is of type webauthn.get, not cross-origin and carries exactly the challenge issued for this sign-in, and the authenticator data names the registered relying party and has the user-present bit set. Any deviation in any of these, including any flipped bit, leads to refusal with response code 400.",
["inputs","histories"],"all assertions: genuine ones, ones with any single requirement violated but otherwise correctly signed, and ones with any bit altered; tokens of other users, disabled and deleted tokens; after restarts",
"no test ever verifies an assertion",
["mfa_token.go","webauthn.go","user.go","database.go"],
[("WebAuthnRequest","mfa_token.go"),("VerifyWebAuthnRequest","user.go"),("unpackAuthData","mfa_token.go")],
observe=["Database.AuthenticateUser and MfaToken.WebAuthnRequest results"])

p("C15","WebAuthn registration stores exactly what the authenticator attested",
"A hardware token is registered only when the registration message is well-formed, names a credential of type public-key with known transports (usb, nfc, ble, internal), and attests an ES256 key on P-256 together with relying party and flags, and a challenge is supplied; otherwise it is refused with an error. The stored token carries the attested credential id, key coordinates, relying party, flags, transports and signature counter unchanged, before and after a restart.",
["inputs"],"all registration messages: well-formed ones with arbitrary values and ones with any field missing, null, of the wrong JSON type or of an unsupported value",
"one captured registration message is accepted in TestNewMfaToken; no test removes or alters a field or looks at what is stored",
["mfa_token.go","webauthn.go"],
[("NewMfaToken u2f branch","mfa_token.go")],
observe=["NewMfaToken/AddMfaToken results and stored token record"])

p("C16","No request can crash or wedge the library",
"Whatever strings, payloads and encodings the fields of a request carry, every operation of the database and every parser returns normally with a result or an error; none panics, loops or blocks. After any such request the database still answers every operation correctly for its users.",
["inputs","histories"],"all field contents of requests for all operations, structured mutations of valid keys, registrations, assertions and names, in any order",
"tests use a few dozen well-behaved or simply invalid literals",
["database.go","mfa_token.go","webauthn.go","public_key.go","name.go","role.go","email.go"],
[("deferred unlock","database.go"),("input validation before type assertions","mfa_token.go")],
observe=["panics, deadlocks and later health of the same database"])

p("C17","Opening a database file accepts exactly consistent files, without crashing",
"Opening a file that is not a complete valid database, or in which two users share a username, e-mail address (ignoring letter case), user ID or API key, or a user has a malformed ID, no username, no password or null entries, fails with an error, does not crash and leaves the file untouched. A consistent file, including one written by an earlier release without policy or password algorithm, is opened with all its users, and missing policy limits are filled with the defaults and stored.",
["inputs"],"all byte contents of the database file: truncations, corruptions, structural edits and duplicates at any position",
"TestNewDatabase opens one file it has just written, and a directory; no invalid file is ever opened",
["database.go","user.go"],
[("NewDatabase validation loop","database.go"),("User.Valid","user.go"),("enforceDefaultPolicy","database.go")],
observe=["NewDatabase result, panics, file bytes before and after"])

p("C18","Secrets are never stored or echoed in clear text",
"The database file and its copies never contain a user's password or an API key in clear text: passwords and API keys are stored only as salted bcrypt hashes with the default work factor or higher, so that equal passwords have different hashes. Error messages, user listings, and identification, lookup and listing results never contain a password, and an API key is returned in clear text only by the call that issued it. The file and copies are readable and writable by their owner only, as are directories created for them.",
["inputs","histories","configurations"],"all passwords and keys, all operations including failing ones, any process umask",
"no test looks at the file content, at its permissions, or for secrets in results",
["database.go","password.go","api_key.go","pkg/errors/database.go"],
[("bcrypt hashing with cost 10","password.go"),("file mode 0600, directory mode 0700","database.go")],
observe=["file bytes and modes","all returned errors and payloads"])

p("C19","Identifiers and generated secrets are unique, well-formed and unpredictable",
"User IDs, key and token IDs, API keys and random strings never repeat, within a process, across processes and across databases, are not derived from one another, and have the documented form: user IDs are random UUIDs, random strings have the requested length (or a varying length within the requested range) over the alphanumeric alphabet with every character equally likely. Nobody who knows when the process started or when a call was made can reproduce them.",
["inputs","schedules","histories"],"all lengths and ranges including equal bounds, many values, many processes, concurrent generation",
"tests use a random string only as an input and never inspect it",
["random.go","uuid.go","api_key.go","database.go"],
[("random source","random.go"),("NewID","uuid.go")],
observe=["generated strings, IDs and API keys; replay of time-seeded generators against them"])

p("C20","The otpauth URI carries exactly the token an authenticator app needs",
"For every valid TOTP or HOTP code description, the generated URI decodes to exactly the given type, label, issuer, secret, algorithm, digits, period and counter (with the documented defaults), and the encoded form is the base64 of that URI; an authenticator that follows the URI produces passcodes that the library accepts for a token with the same parameters. Descriptions with missing or out-of-range values are refused and yield no URI.",
["inputs"],"all labels, issuers and secrets including reserved and non-ASCII characters, all types, algorithms, digits, periods and counters, valid and invalid",
"TestNewCode compares three fixed URIs with plain labels and a six-letter secret",
["pkg/qr/qr.go","mfa_token.go"],
[("Code.Build","pkg/qr/qr.go"),("validate","pkg/qr/qr.go")],
observe=["Code.Get and GetEncoded parsed by an independent URI reader"])

p("C21","Revisions advance by exactly one per stored change and never otherwise",
"Every successful operation that stores the database advances its revision by exactly one and refreshes its modification time; reads, sign-ins, lookups and refused operations never change either. A user's own revision advances by exactly one with each successful change to that user and with no other operation, and revisions survive reopening, so later states never carry a lower revision.",
["histories","fault_sequences"],"all histories of successful, refused and failing operations across users, with saves, copies and restarts",
"no test looks at any revision",
["database.go","user.go"],
[("commit increments revision","database.go"),("User.Revise","user.go")],
observe=["revision and last_modified in the file and in GetUser after each call"])

p("C22","Password and username limits of the policy are enforced and advertised alike",
"A user is added, and a password is changed, only if the username's and password's length in bytes lies within the limits of the database's policy, both bounds included, and no in-range value is refused because of its length. Limits absent from a database take the documented defaults, configured limits are never altered, and the advertised policy summaries and regular expressions state exactly the configured limits and character rules: a string that the advertised expression accepts is never refused by the policy.",
["inputs","configurations"],"all policies (bounds and flags), all username and password lengths around the bounds",
"TestDatabasePolicy prints the default policy; no test adds a user with a length at or beyond a bound or uses a configured policy",
["database.go"],
[("checkUserPolicyCompliance, checkPasswordPolicyCompliance","database.go"),("enforceDefaultPolicy","database.go"),("policy summaries and regexes","database.go")],
observe=["AddUser and ChangeUserPassword results; summaries; regexes evaluated on strings"])

p("C23","Unknown users cannot be told apart from wrong passwords",
"A sign-in with an unknown identifier gets the same response code as one with a wrong password for an existing user and costs the same amount of password hashing work, whatever non-empty password is presented. Identifying an unknown user succeeds like for a known one, with a fixed placeholder identity that demands a password and carries no flags, roles or names.",
["inputs"],"all unknown identifiers and all presented passwords, including blank and over-long ones",
"tests check only the error text of one unknown-user sign-in; nothing measures the work done",
["database.go"],
[("hashing on the unknown-user path","database.go"),("IdentifyUser placeholder","database.go")],
observe=["Response.Code, counted bcrypt rounds, IdentifyUser results"])

p("C24","Claims reported about a user are exactly what was registered",
"Identification of a user, by username or e-mail in any letter case, reports the registered username, e-mail address and full name in Last, First form and exactly the registered roles, in order and without duplicates, including roles qualified by an organization; listings report the same values with that user's ID. Names given as First Last or Last, First denote the same name, parsing a reported name or role yields it again, an e-mail address is accepted exactly if syntactically valid and its domain is the part after the at sign, and membership queries answer yes exactly for registered roles.",
["inputs","histories"],"all names, roles and e-mail addresses, across restarts",
"tests use three roles, one organization-qualified role and two names, each checked in isolation",
["user.go","name.go","role.go","email.go","database.go"],
[("ParseName, NewRole, NewEmailAddress","name.go, role.go, email.go"),("Get*Claim, GetMetadata","user.go")],
observe=["IdentifyUser, GetUsers, GetUser results"])

p("C25","Every refusal is reported as an error of the documented kind",
"Every operation that does not do what was asked returns a non-nil error, and every error of a database operation identifies the kind of operation that failed to standard error matching, for every cause: invalid request, unknown or mismatched identity, duplicate, failed write. Error text states the operation's subject and the underlying cause with all parameters filled in.",
["inputs","fault_sequences"],"all operations and all causes of refusal, with arbitrary text (including formatting directives) in names and identifiers",
"tests compare a few literal messages with messages produced by the same formatting code",
["pkg/errors/errors.go","pkg/errors/database.go","database.go","user.go"],
[("StandardError.WithArgs, Unwrap","pkg/errors/errors.go")],
observe=["errors.Is against the documented kinds, message text"])

p("C26","Stored attributes survive opening and saving, across releases",
"A database file in the format of the current release, in which any subset of the documented attributes of users, names, organizations, locations, passwords, keys, tokens, devices, lockout, avatar and policy is present with arbitrary values, is opened and saved again without losing, renaming or altering any attribute, apart from revision, modification time and version of the database. Operations on one attribute leave all others as they were in the file.",
["inputs","configurations"],"all subsets and values of documented attributes, followed by any operation",
"no test loads a file with attributes that the library itself does not set; tag tests compare names textually and do not load anything",
["user.go","name.go","organization.go","location.go","image.go","lockout.go","password.go","api_key.go","public_key.go","mfa_token.go","database.go"],
[("JSON tags","user.go and the other type files"),("NewDatabase, Save","database.go")],
observe=["JSON document before opening and after saving"])
p("C27","Databases in one process are independent of one another",
"Whatever is done on one database, including on one that was opened from a copy of the other or that has the same usernames, passwords and e-mail addresses, every other database in the process answers, stores and reports exactly as if it were the only one, whether they are used in turn or from different goroutines at the same time. No password, key, token or user of one works in another unless it is stored there, and what is deleted, changed or refused in one stays as it was in the other.",
["histories","inputs","schedules"],"any number of databases, with the same or different users, forked by copying at any point, operated in turn or in parallel",
"every test opens one database at a time and none operates on two",
["database.go","user.go","password.go","api_key.go","mfa_token.go"],
[("NewDatabase, Copy, all operations","database.go")],
observe=["verdicts, dumps and files of every database after operations on the others"])
p("C28","Operations leave nothing behind",
"Apart from the database file, the requested copies and the directories created for a new database, no operation leaves files, open file descriptors or running goroutines behind, whether it succeeds, is refused or fails with an input/output error. Operations that change nothing, and operations whose effects are undone by a later one, can be repeated any number of times without memory use or the database file growing.",
["histories","fault_sequences"],"all operations with all outcomes including failures of the file system at any point, any number of repetitions",
"no test inspects directories, descriptors, goroutines or memory after an operation",
["internal/utils/file.go","database.go","user.go","password.go"],
[("NewDatabase, Save, Copy, commit","database.go"),("ReadFileBytes, WriteFileBytes","internal/utils/file.go")],
observe=["directory tree, /proc/self/fd, goroutine count, retained heap, file size"])
p("C29","Only a request's own inputs count, and they are left alone",
"The outcome of an operation and what it stores depends only on the database and on those request fields that are inputs of that operation; whatever other fields of the request hold, such as identifiers, flags, payloads or results of an earlier operation, makes no difference, and on success the operation's outputs are overwritten. An operation leaves the inputs of its request (apart from a token's algorithm being normalised) as they were, so a request refused because of a fault can be issued again with the effect of a new one. The database keeps no hold on a request: altering it, or the lists and summaries it was answered with, afterwards changes nothing that is stored or reported later.",
["inputs","histories","fault_sequences"],"all operations, all values in the fields that are no inputs, requests reused after success, refusal and faults, alterations at any later point",
"tests build a fresh minimal request for every call, never reuse one and never alter a request or an answer afterwards",
["pkg/requests/requests.go","database.go","user.go","api_key.go","public_key.go","mfa_token.go"],
[("request fields read and written by operations","database.go"),("GetFlags, GetChallenges, resetFlags","user.go"),("lists handed out","database.go")],
observe=["every field of the request before and after, verdicts and stored records"])
p("C30","Recorded times are true",
"The creation time recorded for a user, password, key or token, the time at which one was disabled, and the modification times of a user and of the database lie between the beginning and the end of the operation that caused them, in UTC; no other operation, no failed operation and no reopening alters them. An entry that is not disabled carries no time of disabling, and a disabled one does. Nothing was modified before it was created.",
["histories","inputs","configurations"],"all operations in any order and with any outcome, across restarts, for any local time zone",
"tests ignore times or blank them out before comparing",
["user.go","password.go","api_key.go","public_key.go","mfa_token.go","database.go"],
[("Revise","user.go"),("Disable","password.go, api_key.go, public_key.go, mfa_token.go"),("commit","database.go")],
observe=["times in records, listings and the database file against the clock around the call"])
p("C31","User objects obey the same rules outside a database",
"A user object decoded from its stored record gives by its own methods the verdicts and effects that the database operations have for that user: verification of passwords, API keys and assertions, adding and deleting keys and tokens, changing the password, challenges, flags, claims, roles and metadata; a refused method changes nothing. A user made from valid values has exactly those values, at revision 0. Adding a role or e-mail address that it already has, or an invalid one, changes nothing; a new one is appended, the first address and name stay the primary ones, and each such change raises the revision by one. Encoding and decoding a user changes nothing.",
["inputs","histories"],"all users and all sequences of method calls, with valid, invalid and repeated values",
"tests call each method once or twice on a fixed user and never compare a user object with a database",
["user.go","role.go","name.go","email.go"],
[("NewUserWithRoles, AddEmailAddress, AddRole, AddName, AddPassword","user.go"),("Verify*, Lookup*, Get* methods","user.go")],
observe=["method results and encoded user objects, database verdicts and records"])
p("C32","A payment card names exactly the issuer and association it was given",
"Adding an association to a card succeeds exactly for the name of an association in the table of supported ones, which includes American Express, Diners Club, Discover, Mastercard and Visa; adding an issuer succeeds exactly for the name or an alias of an issuer in the table of issuers, as written there or in lower case. The card then refers to that entry, the first one that fits. Any other value is refused with the documented error naming the value and leaves the card as it was. No call changes other cards, other attributes or the tables, and encoding and decoding a card changes nothing.",
["inputs","histories"],"all texts, all tables of issuers and all sequences of calls on any number of cards",
"tests add one or two supported names to a fresh card",
["credit_card.go","credit_card_issuer.go","credit_card_association.go"],
[("AddIssuer, AddAssociation","credit_card.go"),("CreditCardAssociations","credit_card_association.go")],
observe=["errors, the fields of cards and the exported tables"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
