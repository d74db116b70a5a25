#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the statements are easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

KS="1pass-core/core/service/keyservice.go"; IS="1pass-core/core/service/itemservice.go"
VF="1pass-core/core/facade/vaultfacade.go"; IR="1pass-parse/repo/file/itemrepo.go"; PR="1pass-parse/repo/file/profilerepo.go"
CR="1pass-parse/repo/file/configrepo.go"; US="1pass-core/core/service/updateservice.go"; UP="1pass-up/component/github/updater.go"
CC="1pass-term/control/cobra/clicontrol.go"; GC="1pass-term/control/gocui/guicontrol.go"; DT="1pass-core/core/domain/datatype.go"
GUI=["1pass-app/gui/1passwidget.go","1pass-app/gui/itemswidget.go","1pass-app/gui/detailswidget.go"]

p("C01","Encrypted blobs are released only when their MAC verifies",
 "For every encrypted blob (opdata) and every pair of encryption and MAC keys, decoding yields plaintext only if the blob's last 32 bytes are exactly the HMAC-SHA256, under the MAC key, of all the bytes before them, and a well formed blob with the right MAC is always accepted. In every other case, also when the blob is too short, it yields an error and no plaintext, never a crash.",
 ["inputs"],"every blob content, every key pair, every deviation of the stored MAC, within the byte bounds stated in DESIGN.md",
 "The tests decode a handful of intact blobs of one sample vault and never a blob whose MAC is wrong in some bytes only; which bytes are compared and covered cannot be sampled.",
 [KS],[("HMAC comparison before decryption","CheckHmac, DecodeOpdata")],observe=["result and error of DecodeOpdata"])
p("C02","Opdata decoding returns exactly the plaintext that was encrypted",
 "For every plaintext, padding, IV and key pair, decoding a well formed opdata blob (8 byte header, little-endian plaintext length, IV, AES-256-CBC ciphertext of padding followed by the plaintext, MAC) returns exactly the original plaintext bytes: none lost, added, reordered or taken from the padding.",
 ["inputs"],"every plaintext up to the stated length (all residues modulo the block size), every padding, IV and key",
 "Sample vault blobs exercise a few lengths and random paddings; an error at one length or padding size is not sampled.",
 [KS],[("length prefix and front padding","DecodeOpdata"),("CBC decryption","DecodeData")],observe=["result of DecodeOpdata"])
p("C03","Every key is derived and unwrapped as the OPVault design says",
 "For every password and profile, the derived keys are the two halves of the 64 byte PBKDF2-HMAC-SHA512 of the password with the profile's salt and iteration count; master and overview keys are the halves of the SHA-512 of the authenticated decryption, under the derived keys, of the profile's own master and overview key blobs; and an item's keys are the decryption under the master key of that item's own key blob, used only if that blob's MAC verifies under the master MAC key.",
 ["inputs"],"every password, salt, iteration count, master/overview key material, item key material and key-blob deviation within bounds",
 "One profile with one password is tested, and no test tampers with an item key blob: swapped halves of equal size, a truncated password or an unchecked MAC need inputs the sample does not contain.",
 [KS,PR,"1pass-parse/util/pbkdf2/cryptoutils.go"],[("PBKDF2 with profile parameters","DerivedKeys"),("profile key unwrapping","MasterKeys, OverviewKeys, DecodeKeys"),("item key unwrapping","ItemKeys")],observe=["DerivedKeys, MasterKeys, OverviewKeys, ItemKeys results"])
p("C04","Only the right password unlocks a vault",
 "For every vault and password, unlocking a locked vault succeeds if and only if the password's derived keys authenticate both the master key and the overview key of the profile. When it does not succeed it reports an invalid password, the vault still counts as locked and not a single item can be listed, counted or fetched.",
 ["inputs","histories"],"every password and every corruption of either profile key blob",
 "Tests try one right and one wrong password on one vault; a password differing in one position, or one corrupted blob of the two, is not sampled.",
 [VF,KS],[("error returns before the keys are kept","Unlock")],[("keys","present only after a successful unlock",VF),("items","decoded items, filled by unlock",IR)],observe=["Unlock error","IsUnlocked","GetItems/CountItems/GetItem"])
p("C05","Locking forgets everything, in every lock/unlock history",
 "After any sequence of lock and unlock attempts (right or wrong password) on a vault, items are available if and only if the last thing that changed the state was a successful unlock: a locked vault reports locked, lists nothing, counts zero and finds no item. Each successful unlock after a lock presents the vault's complete current content and nothing from before.",
 ["histories"],"every sequence of operations up to the stated length, every vault content between them",
 "The tests lock once after one unlock; histories with wrong passwords in between, repeated locks or a vault whose content changed are not run.",
 [VF,IS,IR],[("key and item clearing","Lock, ClearMemory, RemoveItems"),("item storing","DecodeItems, StoreItems")],observe=["IsUnlocked","GetItems","CountItems","GetItem"])
p("C06","Decoded items carry exactly the vault's content",
 "For every item whose overview and details are valid JSON of the OPVault shape, the decoded item has exactly the title and URL of its overview and the notes, sections and fields of its details: every section with a title or a field, and every field that has a value (for top-level fields also a name), appears once, in the original order, with its own label (capitalised word-wise) and value, top-level fields before sections. Nothing is lost, invented or moved to another section or item.",
 ["inputs"],"every combination of present/absent keys, value contents and counts within bounds",
 "The sample vault has a few dozen items of few shapes; absent keys, empty values, mixed sections and particular contents combine in ways it does not contain.",
 [IS],[("item assembly","DecodeItems"),("section and field parsing","ParseItemSection, ParseItemField")],observe=["Item returned after unlocking"])
p("C07","Every item of every band file is loaded once with its own metadata",
 "For every vault, the items available after unlocking are exactly those whose entry stands in some band file under a known category code: each one once, with its own UID, category, trashed flag, creation and modification times. Entries of unknown categories, and only those, are left out, and an empty band does not prevent the others from loading.",
 ["inputs","schedules"],"every number of bands and entries within bounds, every metadata value, every map iteration order",
 "One vault with fixed bands is loaded; band counts, empty bands, extreme timestamps and iteration orders are not varied.",
 [IR,IS,"1pass-core/core/domain/itemcategory.go"],[("band concatenation and parsing","LoadItems"),("category lookup","FromCode"),("storing","StoreItems")],observe=["items after Unlock"])
p("C08","Damaged or forged item data is never shown and never crashes",
 "If an item's overview, details or key blob is damaged, truncated or does not authenticate under the vault's keys, nothing derived from that blob is ever shown as the item's title, URL, notes or fields, the program does not crash, and all other items are decoded as if nothing had happened.",
 ["inputs"],"every truncation length and every corruption of any of the three blobs of an item, within bounds",
 "All items of the sample vault are intact.",
 [IS,KS],[("authenticated decoding per item","DecodeOverview, DecodeDetails, ItemKeys")],observe=["items after Unlock"])
p("C09","Listing and counting select exactly the matching items",
 "For every set of items and every filter, the list contains exactly the items of the requested category (all when none is given) whose title contains the requested text ignoring letter case (all when empty) and whose trashed state equals the requested one, each once, showing its own UID, category, title and trashed state. The count for a category and trashed state equals the length of the unfiltered-by-title list.",
 ["inputs"],"every item set, category, search text and trashed flag within bounds",
 "A few fixed queries on the sample vault are tested.",
 [IR,IS],[("selection","FindByCategoryAndTitleAndTrashed, CountByCategoryAndTrashed"),("mapping","GetSimpleItems")],observe=["GetItems, CountItems of the vault API"])
p("C10","Lists are ordered by category code, then title",
 "For every set of items and every filter, the list is ordered by category code and, within one category, by title in byte order.",
 ["inputs","schedules"],"every item set within bounds, in every storage order",
 "The test inspects one listing of the sample vault.",
 [IS],[("sorting","GetSimpleItems")],observe=["GetItems order"])
p("C11","Fetching by UID returns that item and no other",
 "For every set of items, UID and trashed flag, fetching returns the item with exactly that UID and exactly that trashed state, complete and unchanged, and nothing when there is none; it never returns an item with another UID or from the other side of the trash.",
 ["inputs"],"every item set, UID (also prefixes, case variants, empty) and trashed flag within bounds",
 "Two UIDs are looked up in tests.",
 [IR,IS],[("lookup","FindFirstByUidAndTrashed")],observe=["GetItem"])
p("C12","The overview command never discloses sensitive data",
 "For every item, what the overview command writes does not depend on the content of any field value or of the notes: each field value and non-empty notes are replaced by the same fixed mask, while category, title, dates, trashed state, URL, section titles and field names are shown.",
 ["inputs"],"every item (any number of sections and fields within bounds, any values)",
 "The command line control has no tests at all; independence from the secrets is a statement about pairs of runs.",
 [CC],[("masking","GetItemOverview")],observe=["standard output of the overview command"])
p("C13","The details command shows every field and the notes in full",
 "For every item, the details command writes category, title, modification and creation time, trashed state, the URL when there is one, then every section in order with every field's name and exact value, and the complete notes when there are any; when no item matches it says that the UID does not exist.",
 ["inputs"],"every item within bounds, with any values",
 "The command line control has no tests at all.",
 [CC],[("printing","GetItemDetails")],observe=["standard output of the details command"])
p("C14","Commands open the chosen vault, and nothing shows before unlocking",
 "For every list, overview and details command, the vault used is the one named on the command line, or the configured default when none is named, and the password tried is exactly the one typed. If that vault is not valid or the password is refused, the command ends with a non-zero exit status after printing the error, without asking for a password in the first case, and no item is ever fetched or printed.",
 ["inputs","fault_sequences"],"every path, default path, password, filter and outcome of validation and unlocking",
 "The command line control has no tests at all.",
 [CC,GC],[("gating","GetItems, GetItemOverview, GetItemDetails, ValidateVault")],observe=["calls to the vault API","standard output","exit status"])
p("C15","Vault validation accepts exactly directories holding a profile",
 "For every path and file system content, a vault is accepted if and only if the path is an existing directory that contains a profile file (default/profile.js) that is not a directory; otherwise an error names the problem and no profile is read.",
 ["inputs","fault_sequences"],"every kind of object (absent, file, directory, unreadable) at each of the path components",
 "Four fixed directories are tested.",
 ["1pass-core/core/service/vaultservice.go"],[("checks","ValidateVault")],observe=["Validate result"])
p("C16","Configuring accepts only valid answers and keeps the rest",
 "For every sequence of answers, configuring stores an HTTP timeout only if it is a whole number from 1 to 30, an update period only if it is a whole number from 0 to 365, a notification setting only if the answer is y or n in either case, and a new default vault path only after an explicit y. Every other setting keeps its previous value and the configuration is always saved exactly once.",
 ["inputs"],"every answer text within bounds and every previous configuration",
 "The command line control has no tests at all.",
 [CC,"1pass-core/core/domain/logicval.go"],[("prompt handling","Configure")],observe=["saved configuration"])
p("C17","Saved settings are read back unchanged and defaults fill the gaps",
 "For every configuration, after saving, both the running program and every later run read back exactly the saved default vault, timeout, notification setting and update period, from any previous state of the configuration file (missing, empty or complete). Settings never saved read as: no vault, timeout 1, notifications on, period 1; and the configuration counts as available exactly when the file holds at least one setting.",
 ["inputs","histories"],"every setting value within bounds, every previous file state, every sequence of saves up to the bound",
 "One configuration is saved and re-read in tests, never starting from an empty file.",
 [CR,"1pass-core/core/service/configservice.go","1pass-core/core/facade/configfacade.go"],[("loading and saving","loadConfigFile, Save"),("defaults","GetTimeout, GetUpdatePeriod, ...")],observe=["GetConfig, IsConfigAvailable"])
p("C18","An update installs only a verified newer release",
 "For every outcome of every step, an update replaces the program only when a newer release was found, its archive and checksum were downloaded from that release and extracted, and the extracted program passed checksum validation, all in that order. When any step fails or there is nothing newer, the error is reported, no later step runs and the installed program is not touched; the temporary directory is emptied before downloading and removed after success.",
 ["fault_sequences","inputs"],"every combination of step failures, release data and leftovers in the temporary directory",
 "The update tests do nothing without a network; failures of single steps are never produced.",
 [US,"1pass-core/core/facade/updatefacade.go"],[("step order and early return","Update")],observe=["calls to the updater component","files in the temporary directory","Update result"])
p("C19","No update happens without the user's consent",
 "For every answer, the update command starts updating only if a newer version was found and the user answered y (in either case); every other answer, including none, aborts with a non-zero exit status and nothing is downloaded or replaced. Other commands at most print a notification, only when notifications are enabled and a newer version exists; without notifications enabled no check is made, and an update check failure never disturbs them.",
 ["inputs","fault_sequences"],"every answer text within bounds, every check outcome and configuration",
 "The command line control has no tests at all.",
 [CC],[("confirmation","Update"),("notification","CheckForUpdate")],observe=["calls to the update API","standard output","exit status"])
p("C20","Update checks respect the configured period",
 "For every configured period and time of the last check, an unforced check contacts the server if and only if no valid time stamp of an earlier check is stored or at least that many whole days lie between it and now; a forced check always does. The time stamp is renewed after every completed check and never after a failed or skipped one.",
 ["inputs","histories","fault_sequences"],"every period 0..365, every elapsed time, every stored text within bounds, every outcome of the check",
 "The test looks at one fresh time stamp with one period.",
 [UP,US],[("elapsed days","ShouldCheck"),("time stamp","CheckTimestamp"),("ordering","CheckForUpdate")],observe=["ShouldCheck result","calls to the updater component","lastcheck file"])
p("C21","Exactly the releases with a greater version are offered",
 "For every answer of the release server, a release is reported as newer if and only if its dotted numeric version is greater than the running version comparing component by component as numbers; its version text, change log, archive address and checksum address are those of the first listed release (the address of an asset it does not have is empty). A version that is not dotted numeric is never newer, and an empty, malformed or incomplete answer gives an error or no update, never a crash.",
 ["inputs","fault_sequences"],"every version text, asset list and response shape within bounds",
 "These tests do nothing without a network, and with one they see only the project's current release.",
 [UP],[("version comparison and asset choice","CheckForUpdate")],observe=["UpdateInfo"])
p("C22","Extracting an archive writes only inside the destination, faithfully",
 "For every downloaded archive, extraction creates or changes files only inside the destination directory, whatever the entry names are; every regular file entry it accepts ends up with exactly the archived bytes, and a damaged archive is reported as an error.",
 ["inputs"],"every entry name (including parent references and absolute paths), type and content within bounds",
 "The extraction test does nothing without a network.",
 [UP],[("extraction","ExtractArchive")],observe=["files created","ExtractArchive error"])
p("C23","Checksum validation accepts exactly the matching binary",
 "For every binary and checksum file, validation succeeds if and only if the first word of the checksum file is the hexadecimal MD5 of the binary; an empty, unreadable or different checksum is an error, never a crash.",
 ["inputs"],"every binary content, every deviation of the checksum text and layout within bounds",
 "Tests try one matching file and one mismatch.",
 [UP],[("comparison","ValidateChecksum")],observe=["ValidateChecksum result"])
p("C24","Replacing the program is all or nothing and leaves it runnable",
 "At every point in time during replacement, also if it is interrupted or a step fails, the installed program path holds either the complete old program or the complete new one. After a successful replacement it holds the new program and is executable.",
 ["crash_points","fault_sequences"],"every crash point and every failing file operation during replacement",
 "The replacement has no test.",
 [UP],[("rename over the running binary","ReplaceBinary")],observe=["file content and mode at the program path after every file operation"])
p("C25","The terminal GUI reveals secrets only on request, and nothing when locked",
 "In every sequence of key presses, field values and notes are on screen only while the user has revealed the selected item with TAB; covering, moving on or going back hides them, and while the vault is locked no item data is on screen. Typed passwords never appear on screen.",
 ["histories","inputs"],"every key sequence up to the stated length, every item content within bounds",
 "The GUI has no tests.",
 GUI,[("covering","detailsWidget update/toggleDetails"),("locking","lock handlers")],observe=["screen content","calls to the GUI control"])
p("C26","The GUI acts on the row that is highlighted",
 "In every sequence of key presses and for every mix of items, opening a menu row lists exactly what its label says (all, one category, or trashed items), the highlighted row is the one that is opened or shown in the details pane, its details are those of that item, shown from their top-left corner and scrolled by one line or column per key press, and no key press crashes the program.",
 ["histories","inputs"],"every key sequence up to the stated length, every mix of categories and trashed items within bounds, every screen height within bounds",
 "The GUI has no tests.",
 GUI,[("selection bookkeeping","cursorUp/cursorDown/showItems/resetCursor")],observe=["screen content and cursor","calls to the GUI control"])
p("C27","The GUI's background update check never disturbs the session",
 "Whatever the update check in the GUI returns and whenever it finishes, it changes the screen only from within the user interface loop, shows whether a newer version exists (naming it), the program is up to date or the check failed as soon as that is known, is made once per session, and never blocks or ends the session.",
 ["schedules","fault_sequences"],"every completion point relative to key presses up to the bound and every outcome of the check",
 "The GUI has no tests; interference needs a particular interleaving.",
 ["1pass-app/gui/versionwidget.go"],[("asynchronous check","verWidget.update")],observe=["screen content","goroutine in which the screen is written"])
p("C28","Typed field values are rendered faithfully",
 "For every section field, a date value (Unix time) is shown as its calendar day in local time, a month/year value yyyymm as yyyy-mm, an address as one line 'name: text' per part in key order with its own text, and a value of any other type exactly as stored.",
 ["inputs"],"every date, month/year, address content and other value within bounds",
 "Tests render one value of each type, passing dates as text although vaults store numbers.",
 [DT,IS],[("rendering","ParseValue, parseDate, parseMonthYear, parseAddress, ParseItemField")],observe=["field values of decoded items"])
p("C29","Command line arguments reach the right command unchanged",
 "For every command line, list, overview, details, configure, categories and update run the command of that name and no other, with exactly the vault path, category, name, UID and trashed flag given (absent ones empty or off); wrong numbers of arguments run nothing.",
 ["inputs"],"every combination of commands, flags and values within bounds",
 "The command line definition has no tests.",
 ["1pass-app/cli/cobra.go"],[("command definitions","init")],observe=["calls to the command line control"])
p("C30","The GUI tries exactly the password that was typed",
 "In every sequence of key presses at the GUI's prompt, the password tried is exactly the one typed: leading and trailing blanks, long passwords and corrected ones included, however fast the keys arrive. After a refused one the reason is shown and the prompt starts empty again; the vault opens only with the accepted one.",
 ["histories","inputs","schedules"],"every typed text within bounds, every grouping of key arrivals, every sequence of refusals up to the bound",
 "The GUI has no tests; blanks, long passwords and fast typing are not what a developer tries.",
 ["1pass-app/gui/passprompt.go"],[("reading and trying the password","passPrompt")],observe=["calls to the GUI control","screen content"])
p("C31","The list command shows exactly what was searched for",
 "For every category text, search text and trashed option, the list command searches the category with that name ignoring letter case and surrounding blanks (all when none is given), the text without surrounding blanks and that side of the trash, and prints every item found once, in order, numbered, with its UID, category name and title; when nothing is found it says so. A category that does not exist is reported and ends the command with a non-zero exit status. The categories command names every category, by code.",
 ["inputs"],"every category and search text within bounds, every set of found items within bounds",
 "The command line control has no tests at all.",
 [CC,"1pass-core/core/domain/itemcategory.go"],[("list and categories output","GetItems, GetCategories"),("category lookup","FromName")],observe=["calls to the vault API","standard output","exit status"])
p("C32","The parts work together from run to run",
 "For every history of runs of the whole program on one file system, settings given at the first run or by configure are used by every later run without asking again, each command shows items of the vault it names (or else the configured one) opened with that vault's password and of no other, the terminal GUI opens the same vault, the time of the last update check carries over between runs, and a confirmed update replaces the program that is running.",
 ["histories","inputs"],"every history of runs up to the stated length, every command, vault, password, elapsed time and item content within bounds",
 "No test runs the program as a whole.",
 ["1pass-app/main.go","1pass-app/cli/cobra.go",VF,"1pass-core/core/facade/updatefacade.go","1pass-core/core/facade/configfacade.go"],[("wiring","main")],observe=["standard output, screen, exit status and files after each run"])
p("C33","Connection attempts are given up after the configured timeout",
 "Every connection that an update check or an update opens (release list, archive, checksum) is given up after exactly the configured number of seconds, in every run and with every setting.",
 ["inputs"],"every timeout 1..30, every kind of request",
 "The tests do nothing without a network.",
 [UP,US,"1pass-core/core/facade/updatefacade.go"],[("dial timeout","httpClient"),("passing on","CheckForUpdate, Update")],observe=["time limit of every connection attempt"])
p("C34","Runs change only the program's own files, and no secret reaches a file",
 "In every run of every command and of the GUI, with every outcome (wrong password, unusable vault, damaged items, failing file system, server or update), the only files created, changed or removed are those in the configuration directory that belong to the program (the settings and the time of the last update check) and, during a confirmed update only, the temporary update directory and the program itself. A vault is never changed, and neither a password nor decrypted content of an item is ever written to a file.",
 ["inputs","fault_sequences"],"every command, situation and failing operation within bounds, every secret text",
 "Tests look at the files they expect, never at all the others, and write no damaged vaults.",
 ["1pass-app/main.go","1pass-app/cli/cobra.go",CC,VF,IS,US,UP],[("everything that runs","main")],observe=["every change of the file system","contents of all files"])
p("C35","The update command says truly what it does",
 "For every release, answer and failure, the update command shows the version and the whole change log found before it asks, announces every stage of a confirmed update in order and when that stage begins, prints the reason when a stage fails, and says that the program was updated, with the new version and a zero exit status, only if it was; a refusal and nothing newer are told and end with a non-zero exit status.",
 ["inputs","fault_sequences"],"every release, answer and failing operation within bounds",
 "The command line control has no tests; the update service's tests pass a stage function that does nothing.",
 [CC,US,UP],[("messages and order","Update")],observe=["standard output at every request and file system operation","exit status"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
