#!/usr/bin/env python3
# Source of known_findings.json: the repaired defects (no unrepaired ones are recorded as known).
import json
F=[("C01","c11de48","an opdata blob shorter than its header, or whose stored length exceeds its content, crashed the program instead of giving an error"),
("C08","c11de48","a truncated overview or details blob crashed unlocking (slice bounds out of range)"),
("C03","702f1a0","the item key blob's MAC was never checked: forged item keys were used"),
("C08","702f1a0","a truncated item key blob crashed the program, a forged one decided which keys decrypt the details"),
("C21","0ccfca3","an empty release list, a release without assets, or a JSON object in place of the list crashed the update check"),
("C21","32fcf9c","versions were compared as floats/strings: 1.10.0 was not newer than 1.3.1"),
("C22","6dadded","archive entries named ../x (or absolute) were written outside of the destination"),
("C24","695a916","the new program was renamed into place before it was made executable, and its mode was never set on failure"),
("C23","8ca4cbd","an empty checksum file crashed the update (index out of range)"),
("C28","ed9e2c5","numeric date values were shown as raw floats instead of the day"),
("C17","d498738","an existing but empty configuration file made saving crash (assignment to nil map)"),
("C26","2679129","with no trashed items the last category of the menu could not be opened and moving past it crashed"),
("C26","4f0fd76","the scroll position of menu and details survived a reset: the highlighted row was off screen or not the one acted on"),
("C27","928e56a","the update check's goroutine changed views outside of the user interface loop (data race with drawing)"),
("C07","d9377fd","a vault with an empty (or very short) band file crashed unlocking"),
("C07","ee50148","vault paths with glob metacharacters ([, *, ?) found no band files: the vault looked empty"),
("C06","ddc70f1","items with sections lost their top-level fields (username and password of some logins)"),
("C30","79f5ffb","the GUI trimmed blanks off typed passwords and, when keys arrived faster than the screen was redrawn, used only the part already drawn"),
("C22","09a630d","an archive whose content does not match its gzip checksum, or that is cut off before it, was extracted without an error"),
("C30","79b8b5a","passwords longer than the prompt is wide (59) got blanks inserted"),
("C26","b258ca2","a title with a line break took two rows of the item list: the highlighted row was not the item acted on"),
("C26","f92c4e2","a CR in a value, a title or the notes (CR LF line breaks) blanked the line on screen: labels and values were missing from the details pane"),
("C16","b052bc4","an answer with a blank was cut at it and the rest answered the following questions: a path with blanks was not stored and could change another setting"),
("C19","b052bc4","an answer of several words beginning with y started the update")]
L=[{"property":p,"harness":"","label":"","what":w,"status":"fixed","commit":c,"record":"fixed: property=%s %s %s"%(p,c,w)} for p,c,w in F]
json.dump(L,open(__file__.rsplit("/",2)[0]+"/known_findings.json","w"),indent=1)
