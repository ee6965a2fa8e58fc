#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose monitor is registered."""
import json,re,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("reference-model trace monitor of sign-ins","every sign-in in random histories is compared with a model; known-equivalent bcrypt keys and usernames with an at sign are recorded findings"),
"C02":("trace monitor of stored password lists and former passwords","long rotation histories under random policies against a model"),
"C03":("trace monitor with uniqueness and reachability invariants","histories with colliding and case-variant names, dumps after every operation, reopening"),
"C04":("frame-condition monitor over all identity pairings","every operation with every pairing of names and addresses, foreign key and token ids; byte dump of all other users"),
"C05":("live state, file and reopened copy compared after operations","random histories with reopen, save and copy"),
"C06":("fault enumeration with a state oracle over the file","strace kills and errors at each system call of a store, size limit at byte offsets, concurrent reader; file must be a complete known state"),
"C07":("frame-condition monitor around refused and failed operations","refusals of all kinds and injected store failures, followed by further history"),
"C08":("linearizability checking of recorded histories (porcupine)","concurrent histories of all operations checked against sequential models; copies as snapshots"),
"C09":("Go race detector under concurrent workloads","pairwise and mixed workloads with returned objects in use"),
"C10":("reference-model trace monitor of API key lookups","issued, altered, disabled, expired, deleted and foreign keys; key equality beyond 72 bytes is a recorded finding"),
"C11":("stored key records compared with independently computed facts","RSA/ECDSA/Ed25519/PGP material in several formats, histories of additions and deletions"),
"C12":("reference-model trace monitor of tokens and challenges","histories of TOTP and U2F tokens, flags and challenges"),
"C13":("verdicts compared with an independent RFC 6238 implementation","random secrets, parameters and times including boundaries"),
"C14":("software authenticator with independent ECDSA verification","genuine assertions, single-condition violations re-signed, bit flips, mutations"),
"C15":("field-table oracle over registrations","every field missing, null, mistyped or unsupported; genuine registrations compared with stored record"),
"C16":("crash and deadlock monitor under hostile requests with model follow-up","hostile text, structured mutations of all payloads, later health checked by the model"),
"C17":("verdict oracle over generated database files","consistent and inconsistent variants, truncations, random mutations; file bytes compared"),
"C18":("canary scan of files, copies, errors and results; hash inspection","all secrets of random histories searched in all outputs and files, modes under different umasks"),
"C19":("uniqueness, form, uniformity and predictability monitors","many values from many processes; time-seeded generators replayed against them"),
"C20":("independent otpauth reader and passcode round trip","random and boundary code descriptions"),
"C21":("revision and time stamps checked after every operation","random histories with failures"),
"C22":("length oracle and independent expression matcher","lengths around the bounds under random policies; byte/character mismatch is a recorded finding"),
"C23":("instrumented bcrypt work counter compared between known and unknown","identifier and password pools"),
"C24":("reference-model comparison of reported claims","random names, roles and addresses"),
"C25":("monitor of every error seen in histories","errors.Is kind, formatting directives, subject and cause"),
"C28":("descriptors, goroutines, directory tree, heap and file size compared around operations","random histories with failing stores, unusual targets and damaged files, repeated operations that change nothing"),
"C27":("several databases of one process each watched by its own reference model","databases with the same users, fresh or forked from copies, used in turn and in parallel, with secrets and ids of one tried in the others; a discrepancy counts if the same operations alone in a process do not show it"),
"C29":("requests compared before and after, reused and altered, with a reference model that knows only the inputs","histories whose requests carry foreign values in every other field, are issued again after faults, refusals and successes and altered afterwards; a discrepancy counts if the same history with plain requests has none"),
"C30":("every recorded time compared with clock readings around the call and with its former value","histories with failures and reopening under several local time zones; objects made and disabled one by one"),
"C31":("user objects compared with the database's verdicts and records, and with a model","every operation of a history is also applied to a user object decoded from the stored record; users built and changed by their own methods"),
"C32":("cards and tables compared with a model after every call","random tables of issuers, names and near names, several cards, encoding, parallel use"),
"C26":("document before and after opening, saving and operating compared","random documents over the full stored format"),
}
src="".join(open(f).read() for f in sorted(glob.glob(here+"/harness/*.go")))
have=set(re.findall(r'\bID:\s*"(C\d\d)"',src))
props=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
checks=[];na=[]
for i in props:
    if i in have:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":"runtime monitoring: "+t,
          "level":"fault_enumeration" if i=="C06" else "exploration",
          "level_note":n+". Holds for the executions observed (counted in the evidence file); trusts Go's runtime, the harness's model and a bcrypt with fewer rounds."})
    else: na.append({"property":i,"reason":"monitor not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: all monitors use the exported API of the tree under test. Recorded and repaired defects are in known_findings.json."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); print(len(checks),"checks",len(na),"not applicable")
