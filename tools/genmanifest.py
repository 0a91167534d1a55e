#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MC = "exhaustive stateless exploration of the real code"
CHECKS = {
    "C01": ("model_checking", f"{MC}: all schedules of edits, file operations, sync messages and disconnections at up to three peers (sleep sets)",
            "Real document actors of two and three daemons in one process, exchanging real sync messages; every placement of the operations of the bound and of every message. Trusts the in-process links to behave like ordered reliable streams (C13)."),
    "C02": ("model_checking", f"{MC}: all interleavings of editor and daemon edits over a small text alphabet (sleep sets)",
            "All interleavings of up to 3+2 edits on short texts with one editor, on the daemon's real OT component, and of up to 3 edits with whole daemons; the other side is a reference editor that follows the documented protocol. Trusts the reference editor."),
    "C03": ("model_checking", f"{MC}: all schedules of concurrent typing in editors on one and two daemons (sleep sets)",
            "Every typed character is unique, so loss, duplication and reordering are visible in the converged text. Trusts the reference editor."),
    "C07": ("model_checking", f"{MC}: all sequences of opening, typing, closing, disconnecting and changes by a peer, in two editors",
            "Whole daemon with two reference editors and a peer replica; ownership, content on disk and the answer after every close and disconnect are compared in every reached state."),
    "C09": ("model_checking", f"{MC}: all sequences of editor requests up to a depth against a model of the expected answers",
            "Whole daemon; every request of a 100-element alphabet and all sequences of 3 core requests, each as request and as notification. Positions just behind a line break and multi-operation edits may be accepted or refused."),
    "C10": ("model_checking", f"{MC}: all texts up to a length over an alphabet of special characters, all ranges",
            "Exhaustive for short texts over one representative of each special kind of character, compared with a reference meaning of positions; also through two whole daemons."),
    "C06": ("model_checking", f"{MC}: all combinations of changes on disk while stopped, changes by a peer, and save points, over up to two (thorough: three) restarts",
            "Real daemon startup, saving and document code on a scratch directory; every unchanged and every new character is accounted for. Changes on disk are one contiguous edit per file. Ignore rules do not change while stopped."),
    "C08": ("model_checking", f"{MC}: all pairs of ignore rules in all rule files, each with 25 paths and all ways a file can become shared, compared with 'git check-ignore'",
            "Real daemon, real file watcher on a scratch directory, editor requests; Git itself is the oracle for its rules."),
    "C11": ("model_checking", f"{MC}: all sequences of file operations up to a depth with the real file watcher, with changes by a peer in between and early or late handling of the notifications",
            "Real inotify watcher and daemon on a scratch directory. Waits until each notification has arrived, so timing inside the kernel is not explored, apart from handling events at once or only after all operations."),
    "C12": ("model_checking", f"{MC}: all schedules of cursor messages, edits, disconnections of editors and peers, and deletions",
            "Whole daemons and reference editors; at quiescence every editor must show exactly the last cursor of every other editor that is still connected, in every text of the alphabet."),
    "C18": ("model_checking", f"{MC}: all sequences of well-formed, malformed and interrupted editor input up to a depth, interleaved with other editors and peers",
            "Whole daemon plus a peer; any panic counts, and afterwards another editor and the peer must be served."),
    "C21": ("model_checking", f"{MC}: all sequences of joining, restarting, starting over and changes at host and peer up to depth 4 (thorough: 5)",
            "Real daemons with in-process links; shared content, directories and change history are compared with a model after each step."),
    "C20": ("model_checking", f"{MC}: all sequences of two editors opening, editing and closing files, with every delivery order",
            "One daemon, two reference editors on the same and on different files, plus a peer; equal buffers and document at quiescence. Opening is taken as atomic."),
    "C05": ("model_checking", f"{MC}: all crash points of a saving history, at every system call and every byte of every write, with a restart from each, and of the real program at every change of a file",
            "The daemon's system calls on its state directory are recorded while it runs; each prefix of them, with every partial write, is started again with the real startup code. Trusts that file system calls take effect in order (no reordering after a power failure)."),
    "C13": ("model_checking", f"{MC}: all ways to cut the byte stream, all window sizes of the bound, all orders of polling reader, writer and select branches, every end and every altered byte",
            "The real protocol handler on both ends of an in-memory stream, polled by hand; the random choice of 'select!' is enumerated, too."),
    "C15": ("model_checking", f"{MC}: all schedules (up to a number of deviations from round robin) of both sides' sync actors, protocol handlers and documents",
            "Real documents, sync actors and protocol handlers of two peers over in-memory streams with small and real queue sizes and windows; deadlock is a state where no task can be polled further."),
    "C04": ("model_checking", f"{MC}: all paths of up to three segments from a set of names, links and '..', with every file operation, as editor requests, as names in a peer's document and as notifications",
            "Real sandbox functions and whole daemons, run as an unprivileged user in a scratch tree with links to inside, outside, nothing and themselves; everything around the project is compared before and after. Links do not change during an operation."),
    "C19": ("model_checking", f"{MC}: all documents made of one or two entries of a catalogue of 90 strange ones, before and after usual content, with and without an open editor",
            "Whole daemons, run as an unprivileged user; a hand-made document is synchronized in, then usual editing, a restart and a second peer must work and .git, .ethersync and the surroundings be untouched."),
    "C14": ("model_checking", f"{MC}: all ways to cut messages of both directions into up to three (single messages: four) chunks, for messages over an alphabet of contents",
            "The real client process between a pipe and a socket; each chunk is written only after the previous one has been read."),
    "C16": ("model_checking", f"{MC}: all ordered pairs of 27 (thorough: 47) secrets with two real daemons",
            "Real processes on the loopback interface. Daemons that have not exchanged a file when their connection closes, or after 6 s, count as kept apart."),
    "C17": ("model_checking", f"{MC}: all 4096 modes of key file and socket directory, all umasks for group and others, all socket names up to three segments",
            "Real processes run as an unprivileged user. With changes of modes disabled in the kernel, new keys must be private from the beginning."),
    "C22": ("model_checking", f"{MC}: all commands, remote edits and sequences of both on all small buffers, in a real Neovim",
            "The real plugin in headless Neovim processes; the connection to the daemon is replaced by a recorder, or by the daemon's real OT component with every delay of its messages. Commands come from a list of about 250. Trusts the recorder and Neovim."),
    "C23": ("model_checking", f"{MC}: all changes, remote edits, refusals and interleavings of user, VS Code, extension and daemon on small documents (sleep sets)",
            "The real extension in Node.js in a stand-in for VS Code's extension host, with the daemon's real OT component on the other side. VS Code itself is not available here, so the stand-in's rules (order of events, refusal of edits for outdated versions) are trusted."),
    "C24": ("model_checking", f"{MC}: all combinations of port, peer and secret on the command line and in the config file, written in five ways",
            "Real processes; listening ports, dialed addresses, saved state and successful connections tell which setting is in effect."),
    "C25": ("model_checking", f"{MC}: all positions, selections and ranges in small buffers, all sequences of cursor messages and buffer operations up to a depth, in a real Neovim",
            "The real plugin in headless Neovim processes, with a recorder in place of the daemon; highlights are read back from the buffers. For rectangles over wide characters only part of the selection is compared. Trusts Neovim's own idea of the selected text."),
    "C26": ("model_checking", f"{MC}: all selections and ranges in small documents, all sequences of cursor messages up to a depth",
            "The real extension in Node.js in a stand-in for VS Code's extension host, which keeps the decorations of every visible editor. Cursors in documents that are opened or become visible only later may or may not be shown. Trusts the stand-in."),
    "C27": ("model_checking", f"{MC}: a connection is cut or stalled after every 8th byte (thorough: every byte) of its beginning, in each direction",
            "Three real daemons on the loopback interface with a proxy between two of them, which breaks or stalls the connection at the chosen byte; afterwards a third peer and the same one connect. Bytes after the first 1200 are not cut."),
    "C28": ("model_checking", f"{MC}: all arrangements of marked and unmarked nested directories, with all sequences of a few operations in Neovim and VS Code, and all ways to start a daemon there",
            "Real Neovim processes with and without the plugin, whose effects are compared; the real VS Code extension in a stand-in for its host; real daemon processes. Trusts the recorder of messages and the stand-in. In VS Code, that a document exists may be asked for also outside of shared directories."),
}
NA = {}

ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "ethersync_verif",
        "enable": "RUSTFLAGS='--cfg ethersync_verif' (set by check.sh; the checkers in /verif/mc depend on /repo/daemon by path)",
        "source_commits": ["368b304", "2a3b783", "3af5117"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": CHECKS[i][1],
            "level": CHECKS[i][0],
            "level_note": CHECKS[i][2],
        }
        for i in ids if i in CHECKS
    ],
    "not_applicable": [
        {"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS
    ],
}
json.dump(manifest, open(f"{here}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{here}/MANIFEST.json", "a").write("\n")
