#!/usr/bin/env python3
"""Writes the list of repaired defects into known-findings.json: subject of the fix commit -> property, what failed."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
    'Count only "\\n" as a line break in editor positions':
        ("C10", "an edit behind a carriage return, form feed or Unicode line separator changed other characters or panicked"),
    "Answer editor edits that cannot be applied with an error":
        ("C18", "an edit with a position outside of the file, an impossible revision or several operations ended the daemon (C09: and was not answered)"),
    "Use one relative path per file":
        ("C18", "after opening 'sub/../f' the file f was overwritten with an empty one at peers and edits were refused (C09)"),
    "Do not write through dangling symlinks in the sandbox":
        ("C04", "opening a dangling link created its target outside of the project; a missing path ending in '..' ended the daemon"),
    "Answer with an error if an opened file cannot be checked":
        ("C18", "opening a file for which the ignore rules cannot be evaluated ended the daemon"),
    "Keep running when an editor disappears while being served":
        ("C18", "messages from or to an editor whose connection broke ended the daemon"),
    "Write files to disk when the editor that had them open disappears":
        ("C07", "edits of an editor that disconnected without closing were not on disk"),
    "Align the document with the content of a newly opened file":
        ("C20", "an editor opening a file with unsaved changes in another editor worked on different content (C18: later edits ended the daemon)"),
    "Forget open files that a peer deleted":
        ("C18", "an edit of an open file that a peer had deleted ended the daemon"),
    "Give editors the right content when an open file is recreated":
        ("C02", "the buffer differed from the document after an open file was replaced by a peer's version"),
    "Tell peers that a cursor is gone even if no files are left":
        ("C12", "when an editor left whose last file a peer had deleted, the daemon ended and its cursor stayed visible"),
    "Take over the content of a file that was moved over another one":
        ("C11", "a file that replaced another one (as editors save) kept its old content in the document"),
    "Notice files that are moved into or out of the directory":
        ("C11", "files moved into or out of the project stayed missing or stayed shared"),
    "Notice files in directories that are moved around":
        ("C11", "files in a directory that was moved in, renamed or created quickly were not shared, and those of a directory moved away stayed"),
    "Ignore outdated notifications about removed files":
        ("C11", "a file that was deleted and written again at once, or received from a peer meanwhile, was deleted for everyone"),
    "Do not share backup files at startup":
        ("C08", "files ending in '~' were shared if they existed when the daemon was started"),
    "Ignore files whose name is not valid UTF-8":
        ("C08", "one file with a name that is not UTF-8 ended the daemon"),
    "Keep the old state until the new one is written":
        ("C05", "a crash during the first save after a start left a truncated state, and everything saved before was lost"),
    "Load the state even if the last changes are incomplete":
        ("C05", "a crash while changes were appended to the saved state kept the daemon from starting ever again"),
    "Read and write messages of peers independently":
        ("C13", "a message that was received in pieces while another one was to be sent was lost or shifted the stream; two peers that both sent more than fits into the connection waited for each other forever"),
    "Keep receiving from a peer while it is slow to receive from us":
        ("C15", "two peers that both had many changes to send waited for each other forever"),
    "Let the client accept headers after Content-Length":
        ("C14", "a message with a Content-Type header behind the Content-Length header ended the client"),
    "Only write and remove files that can be shared":
        ("C19", "a peer's file names could end the daemon, overwrite other files ('./f'), and change .git and .ethersync"),
    "Ignore unexpected structure in the documents of peers":
        ("C19", "a peer's document with anything else than texts in it ended the daemon"),
    "Cope with peers replacing files and maps in the document":
        ("C19", "editing a file that a peer had replaced with something else, or working on after a peer had replaced the maps, ended the daemon"),
    "Don't stop when a peer sends contradicting changes":
        ("C19", "two different changes with the same author and number ended the daemon"),
    "Report all changes when Neovim changes several lines one by one":
        ("C22", "replacing a visual selection of several lines (vjrz) reported only the first line"),
    "Report lines added after an empty last line in the right place":
        ("C22", "lines that were added after an empty last line were reported before it"),
    "Keep missing line breaks when text is added after the last line":
        ("C22", "text from the daemon after the last line break got a line break of its own that the document does not have"),
    "Set 'noeol' in the buffer that was edited":
        ("C22", "removing the last line break of a buffer that is not shown changed the shown buffer"),
    "Keep carriage returns that the daemon sends":
        ("C22", "carriage returns in text from the daemon became line breaks in the buffer"),
    "Track Neovim buffers before the daemon has answered":
        ("C22", "edits before the daemon answered to opening were lost, another buffer was tracked, or closing was not reported"),
    "Find out reliably which Neovim buffer was closed":
        ("C22", "closing a file named ~ was reported for the home directory or not at all"),
    "Support percent signs in file names in Neovim":
        ("C22", "edits of files with a name like a%20b from the daemon failed or went to another file"),
    "Support special characters in file names in VS Code":
        ("C23", "files with # ? + & = : @ , ; or $ in their name were reported with another name, and their edits not applied"),
    "Track VS Code documents before the daemon has answered":
        ("C23", "edits before the daemon answered to opening were lost, and closing was not reported"),
    "Accept empty edits from the daemon in VS Code":
        ("C23", "an empty edit from the daemon was refused and sent again forever"),
    "Tell apart edits by the user and the daemon in VS Code":
        ("C23", "edits from the daemon with several operations or common parts were sent back; edits by the user while one of the daemon was applied were reported wrongly"),
    "Save the latest changes when the daemon is stopped":
        ("C21", "stopping the daemon less than a second after a change and starting it again duplicated text or lost changes made to the file meanwhile"),
    "don't stop serving everybody when a connecting peer opens no stream":
        ("C27", "a peer that stalled or went away after connecting kept everyone else from connecting, forever"),
    "keep running when the host goes away before our stream is open":
        ("C27", "a host that stalled or went away during the handshake stopped the peer's networking, it never connected again"),
    "report selections that end in a multi-byte character correctly":
        ("C25", "selections that end in ä were reported one character too long"),
    "report blockwise selections in the right lines":
        ("C25", "blockwise selections raised an error or were reported with columns of another window"),
    "show an empty cursor range in buffers that are not displayed":
        ("C25", "a cursor at the end of a line in a buffer that is not shown was displayed at the wrong place or raised an error"),
    "move cursors away from buffers that were wiped out":
        ("C25", "after a buffer was wiped out, the cursors that had been in it raised errors and were not shown elsewhere"),
    "list all cursors, also of people without a name":
        ("C25", "EthersyncInfo showed only one of several people, and failed for someone without a name"),
    "jump to cursors in files whose names contain a percent sign":
        ("C25", "jumping to a cursor in a%20b opened the file 'a b'"),
    "report it when lines are put in the middle of a line":
        ("C22", "putting lines over a selection inside a line was reported without the line breaks around them"),
    "ignore notifications about a line that doesn't exist":
        ("C22", "putting an empty register raised an error or reported an edit after the end of the buffer"),
    "show the cursors of several people in a file in VS Code":
        ("C26", "a cursor removed the cursors of everyone else in the same file"),
    "show cursors in all editors of a document in VS Code":
        ("C26", "in a document that is visible twice, cursors were shown in one of the editors"),
    "report where the active end of a selection is in VS Code":
        ("C26", "selections made backwards were reported with start and end swapped"),
    "don't leave an incomplete key file behind when killed":
        ("C05", "a daemon killed while it created its key could not be started again"),
    "don't create new files outside of shared directories in Neovim":
        ("C28", "opening a new file anywhere in Neovim wrote an empty file to disk"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
path = f"{here}/known-findings.json"
data = json.load(open(path))
data["fixed"] = []
for line in reversed(log.splitlines()):
    h, subject = line.split(" ", 1)
    if subject.startswith("fix: "):
        p, what = FIXED[subject[5:]]
        data["fixed"].append(f"fixed: property={p} {h} {what}")
json.dump(data, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
