# One note per property: what is symbolic, against what oracle, and why tests cannot settle it.
notes.update({
"C01":"DecodeOpdata, DecodeData and CheckHmac run on blobs whose bytes, keys and deviations from the right MAC are all symbolic; the oracle is the rule itself (plaintext only if the tag equals HMAC of everything before it). A test samples a few tags, the solver covers every deviation of every tag bit and every length within the bound.",
"C02":"The encoder in the harness builds the blob from any plaintext, padding, IV and keys; the real decoder must return exactly that plaintext. AES is an uninterpreted permutation with its inverse, HMAC an uninterpreted function, so the result does not depend on which values they take.",
"C03":"The real key service runs over an uninterpreted PBKDF2, SHA-512, HMAC and AES; the oracle recomputes the derivation of the OPVault design from the same primitives, so a wrong salt, iteration count, half or wrapping key differs for some interpretation and the solver finds it.",
"C04":"Any typed password is compared with the vault's own through the real unlocking path; the oracle is equality of the derived keys. Forged and damaged profiles are symbolic deviations of the stored blobs.",
"C05":"Every history of unlocking (right, wrong), locking and fetching up to the bound runs on the real facade; the oracle is a two-state reference machine, plus a search of everything reachable from the program's objects for remains of the items.",
"C06":"Vault JSON with symbolic texts and every shape of fields and sections within the bound is encrypted by the harness and decoded by the real code; the oracle is the JSON the harness built.",
"C07":"Band files in the model file system with symbolic metadata; every iteration order of Go's maps that matters is explored. The oracle is the list of entries written.",
"C08":"Overviews, details and item keys are damaged in every way of the bound (any symbolic bytes, any truncation, blobs of another item or key) next to an intact item; the oracle says that a damaged part is empty, the other item complete, and nothing crashes.",
"C09":"Items with symbolic titles, categories and states; the oracle is a case-folding containment test written independently of the code.",
"C10":"Sorting real lists with symbolic titles; the oracle is the order relation on every adjacent pair and that the list is a permutation.",
"C11":"Symbolic UIDs, states and questions; the oracle is a search over the items given.",
"C12":"Two-run reasoning is not needed: values and notes come from an alphabet that nothing else on the screen uses, so that any character of it in the output is a disclosure; values, notes, names and shapes are symbolic.",
"C13":"The output of the details command must contain, in order, every line that the item calls for; texts are symbolic.",
"C14":"Everything about the vault (argument, default, password, outcomes of validation and unlocking) is symbolic; a recording facade gives the order of the calls, and a second harness uses the real vault code.",
"C15":"Every kind of file system object at the vault path and inside it, over path texts with symbolic characters; the oracle is the definition of a valid vault.",
"C16":"Answers are symbolic words; the oracle parses them independently without forking.",
"C17":"Settings are symbolic, prior files enumerate every subset of settings; the oracle is what was saved, read by the same and by a new program.",
"C18":"The outcome of every step and of every file system operation is a symbolic choice; the oracle orders the recorded steps. A second harness runs the real updater on model archives and transfers.",
"C19":"Answers are symbolic words; the oracle is y or Y.",
"C20":"Time stamps, clock and period are symbolic integers; the oracle is whole-day arithmetic on the seconds.",
"C21":"Version components are symbolic numbers, the oracle is the component-wise comparison; the JSON answer's shape is enumerated.",
"C22":"Archive entry names, kinds and damage are enumerated over the bound, contents symbolic; the oracle watches the whole model file system.",
"C23":"Binary and checksum file are symbolic, MD5 uninterpreted; the oracle is equality with the hexadecimal sum.",
"C24":"Before each change of the file system the installed program is inspected (a crash point), and each operation may fail; programs are symbolic.",
"C25":"The real widgets and the real gocui run on an in-memory terminal under every key sequence of the bound; sensitive and public texts come from separate alphabets of symbolic characters, and every screen is inspected.",
"C26":"As C25, against a reference state machine of what is selected; the highlighted row and the details on screen must be its row and item.",
"C27":"The goroutine of the update check is scheduled at every point of the session that the bound allows, with every outcome; the session must go on as without it and what the check shows must be right. Shared accesses outside of the main loop are reported.",
"C28":"Field values of every type with symbolic numbers and texts; the oracle formats dates and months arithmetically.",
"C29":"The real cobra command tree runs on symbolic arguments; the oracle is the recorded call of the control port.",
"C30":"Symbolic typed characters through the real prompt and editor; the oracle is the typed text.",
"C31":"Symbolic found items and arguments; the oracle is the rows in order and the filter recorded by the facade.",
"C32":"The real main program is run several times over one model file system and network: configuration, vaults, time stamps and updates made by one run are found by the next.",
"C34":"The whole program runs over the model file system; a monitor sees every operation that changes it and all files are compared before and after. Secrets carry a mark, and symbolic characters beside it, that no file may contain.",
"C35":"The whole program runs an update; standard output is inspected at every request and at every change of the file system, with any one of them failing.",
"C33":"The dialer of the real HTTP client is intercepted; every connection attempt must carry the configured limit.",
})
