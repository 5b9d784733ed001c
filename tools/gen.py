#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or []))

NOTE = (" Rebuilt from /repo's working tree on every run; the harness uses only the exported API, so it judges "
        "behaviour and not how the code is written. It says nothing about inputs and schedules it did not run.")

prop("C01", "Line editing does what the documented keys say, and nothing is lost",
     "After every key, the line being edited and the cursor in it are what the documented editing commands "
     "(typing, moving by character, word and to the ends of the line, deleting backwards and forwards, cutting to either end or by word, swapping two characters, pasting) "
     "give when applied one after the other to the line as it was. "
     "Pasting inserts at the cursor exactly the text removed last by a cutting command, and no command alters any other character or leaves the cursor outside the line. "
     "The line a read call returns is exactly the edited line.",
     ["inputs", "histories"], "every sequence of editing keys on every line, with any Unicode text",
     "The existing tests never run the editor: they cover rune helpers and a segment completer. The guarantee is over unbounded key sequences and texts.",
     ["runebuf.go", "operation.go"],
     [("each command changes the rune slice and the index together under the buffer's lock", "runebuf.go"),
      ("the key loop maps each decoded key to one command", "operation.go")],
     ["what the key listener is given after every key", "what the read call returns"],
     "runtime monitoring: online comparison of every key with an executable reference editor",
     "All triples of 24 commands from several starting lines plus random scripts of up to 140 keys; the listener's view of line and cursor and every returned line are compared with a reference editor after each key.",
     [("line and cursor", "runes of the line being edited and the index of the cursor"), ("cut text", "what the last cutting command removed")])

prop("C02", "Vim mode: normal-mode commands move, change and return to insert as in vi",
     "With vim mode on, the line, the cursor and the mode after every key are those of the supported vi commands: Esc leaves insert mode; "
     "h l 0 ^ $ b w e f F t T j k move, x r d(d w h l) p change the line, and i I a A s S c(c w h l) change it and enter insert mode. "
     "Commands that take an argument use exactly one following key, unknown commands change nothing, and Enter or Ctrl-C ends the line from any mode and the next line starts in insert mode. "
     "No key sequence stops the editor from reading on.",
     ["inputs", "histories"], "every sequence of keys in either vim mode, on every line",
     "No test turns vim mode on; the guarantee covers all interleavings of modes, counts of arguments and cursor positions.",
     ["vim.go", "runebuf.go", "operation.go"],
     [("mode state and command dispatch before the ordinary key handling", "vim.go"), ("the buffer's word and character motions", "runebuf.go")],
     ["what the key listener is given", "what the read call returns", "the emulated screen between keys"],
     "runtime monitoring: online comparison of every key with an executable reference vi editor",
     "All pairs of vi commands from several lines and cursor positions plus random scripts; line, cursor, mode and screen compared with a reference after each key.")

prop("C03", "No input, width or prompt crashes or wedges the editor",
     "Whatever bytes arrive, complete or broken escape sequences, control characters and invalid UTF-8 included, and whatever the reported screen width (zero, negative and changing ones included), the prompt, the completer's answers and the enabled features are, "
     "the editor neither panics nor hangs nor stops reading. "
     "After any such input, finishing the line makes the editor read the next line typed exactly as typed, and the end of the input always makes the read call return.",
     ["inputs", "configurations"], "every byte sequence, chunking, width history, prompt and feature combination (suspending the process with Ctrl-Z excepted)",
     "Tests feed no bytes to an editor; the space of byte sequences and configurations is unbounded.",
     ["operation.go", "terminal.go", "runebuf.go", "complete.go", "search.go", "utils.go"],
     [("index checks in every buffer operation", "runebuf.go"), ("width checks before dividing or repeating", "complete.go, search.go, runebuf.go"), ("every consumed line-ending key either ends the read or restarts the input", "operation.go")],
     ["process exit", "what the read calls return", "progress of the session"],
     "runtime monitoring: hostile random sessions with crash, hang and liveness monitors (plain and race-detector builds)",
     "Random hostile byte streams over random configurations; panics, blocked processes, lost input after the hostile part and missing end of file are violations.")

prop("C04", "The screen shows exactly the prompt, the line and the cursor where they are",
     "On a terminal, whenever the editor waits for a key, the screen shows what was there before the read, then the prompt and the line exactly once, wrapped at the screen width, and the terminal's cursor is at the editing position. "
     "This holds for lines and prompts of several rows, double-width characters, tabs, colored prompts and masked input, while searching (with the search line below), and after the screen was resized, cleared or redrawn. "
     "Submitted and interrupted lines stay on the screen above the next prompt (or are erased, where so configured).",
     ["inputs", "configurations", "histories"], "every prompt, line, editing history and screen width",
     "Tests do not look at the output at all; what the screen shows depends on the whole history of writes and on where wrapping falls.",
     ["runebuf.go", "search.go", "operation.go", "utils.go", "runes.go"],
     [("erase, print and reposition on every change", "runebuf.go"), ("width of prompt and runes", "runes.go")],
     ["the bytes written to the output, interpreted by a terminal emulator"],
     "runtime monitoring: terminal-emulator oracle compared with a reference layout before every key",
     "An independent terminal emulator (deferred wrap, wide characters) interprets everything written; rows and cursor are compared with an independently computed layout before every key.",
     [("cursor row", "row of the edit area the terminal's cursor was left in")])

prop("C05", "Text written while a line is edited appears whole, once and in order",
     "Any number of goroutines may write whole lines of text through the instance's output and error writers at any time, also while a line is being edited, searched or completed, and between reads. "
     "Each write reaches the underlying writer exactly once, in one piece, with its result returned to the caller, and the writes of one goroutine stay in order. "
     "Once the writers are idle, the screen shows every text intact above the prompt, and the prompt and the line being edited exactly once below, with the line itself unchanged; between two reads it shows the texts only.",
     ["schedules", "inputs"], "every interleaving of writers with the editor and every text ending in a newline",
     "Depends on the schedule; no test writes while reading.",
     ["operation.go", "runebuf.go"],
     [("erase, write and redraw under the buffer's lock", "operation.go, runebuf.go")],
     ["calls of the underlying writers", "results returned to the writing goroutines", "the emulated screen", "lines returned"],
     "runtime monitoring: stress with injected scheduling points, exactly-once/order checker on recorded writes and terminal-emulator oracle",
     "Concurrent writers with uniquely numbered lines under random and directed delays in a build with scheduling points before every statement; conservation and order of the recorded writes and the final screen are checked.")

prop("C06", "Every line typed is delivered once, in order, however the bytes arrive",
     "The sequence of read calls, by whichever of the reading methods, returns the lines of the input one per call, in order, complete and exactly once, whatever the sizes of the pieces the bytes arrive in, the signals that interrupt their reads, the length of the lines, and whether they were typed before or after the call. "
     "At the end of the input an unfinished line is returned by one call and the calls after it report end of file. "
     "A read call never returns a line before its line end was read, what it returned is not changed by later calls, and text that was not ended yet is not lost when other calls (such as password reads, prompt or configuration changes) come between the lines.",
     ["inputs", "schedules", "histories"], "every input text, chunking and mix of reading calls",
     "Delivery depends on chunk boundaries and timing between the input goroutine and the reader.",
     ["terminal.go", "operation.go", "readline.go", "std.go"],
     [("the terminal goroutine stops after a line end until the next read call", "terminal.go"), ("the editor hands the line to the pending call", "operation.go")],
     ["what the read calls return", "how far the input was read when each call returned"],
     "runtime monitoring: exactly-once/order checker over numbered lines under random chunking and injected delays",
     "Random line sequences (up to 70000 runes) over random chunkings, reading methods and schedules, also in the build with injected scheduling points; the returned sequence must equal the input's lines.")

prop("C07", "Interrupt and end-of-file keys end exactly the pending read",
     "Ctrl-C during a read makes that call return the interrupt error together with the text of the line at that moment, whatever the cursor position; while searching or completing it only leaves that mode. "
     "Ctrl-D on an empty line makes the call return end of file, and on a non-empty line deletes the character under the cursor. "
     "Neither saves anything in the history, the screen keeps the line with the configured interrupt or end-of-file mark (erased lines and marks configured away excepted), and the next read starts with an empty line and works as usual.",
     ["inputs", "histories", "configurations"], "every key sequence containing these keys, in every mode",
     "Tests never interrupt a read; outcome depends on mode and history of the session.",
     ["operation.go", "readline.go"],
     [("the interrupt and delete keys' branches of the key loop", "operation.go"), ("history is reverted", "history.go")],
     ["what the read calls return", "history reached with the arrow keys", "the emulated screen"],
     "runtime monitoring: reference-model comparison of outcomes, history and screen",
     "Random scripts dense in Ctrl-C and Ctrl-D across editing, history, search, completion and vim modes, with all mark configurations; results, history and screen compared with the model.")

prop("C08", "History recall returns the saved lines and keeps pending edits",
     "Up and Down move through the saved lines from newest to oldest and back to the line being typed, each shown as it was saved or as edited since during this line; at either end the line stays as it is. "
     "Submitting a line saves it as the newest entry (empty lines and repetitions of the newest entry excepted), whether it was typed or recalled and edited, discards the pending edits of other entries, and the oldest entries beyond the limit are dropped. "
     "Lines are not saved while saving is disabled or switched off, and entries saved or cleared by the program take effect at once.",
     ["inputs", "histories", "configurations"], "every sequence of submitted, recalled, edited and programmatically saved lines, and every limit",
     "No test touches the history; the state space is the history list times pending edits.",
     ["history.go", "operation.go"],
     [("versioned temporary edits per entry", "history.go"), ("update of the current entry after each key", "operation.go")],
     ["the line after Up/Down", "what the read calls return"],
     "runtime monitoring: online comparison with an executable reference history",
     "Random scripts of typing, recalling, editing and submitting with small limits and programmatic saves; every recalled line compared with a reference history.",
     [("entries", "saved lines, oldest first"), ("pending edits", "recalled entries changed but not submitted")])

prop("C09", "The history file survives: reload gives what was saved, crashes lose nothing old",
     "While the history file can be written, an entry is in it as a line of its own when the saving call or the submitting read has returned; a new instance on that file recalls the file's non-blank lines, without surrounding blanks, newest last, at most the configured number, and keeps appending to it. "
     "Trimming the file to the limit (one instance at a time) replaces it in one step and keeps who may read it: at every moment, also when the process is killed or the disk is full, the file holds either all old lines or the trimmed list, never a part of one; an entry that could not be saved leaves at most a part of its own line. "
     "Failures to open or write the file are reported by the saving call and never affect reading, and a disabled history leaves the file alone.",
     ["histories", "crash_points", "fault_sequences"], "every sequence of sessions on a history file, every point of death and every write failure",
     "Tests use no history file; crash points and failing writes need injection.",
     ["history.go", "operation.go"],
     [("append on save", "history.go"), ("rewrite to a temporary file and rename", "history.go"), ("load, trim and compact when the file is opened", "history.go")],
     ["the file's content", "recalled entries of later instances", "returned errors"],
     "runtime monitoring: file-content oracle over multi-session histories with kills and file-size/permission faults at every byte and step",
     "Random multi-session histories against a reference of the file; a child process is killed at random points or runs under a file-size limit at every byte offset while it saves or trims.",
     [("history file", "one entry per line, oldest first")])

prop("C10", "Incremental history search finds the nearest match and restores on cancel",
     "While searching backwards (forwards), after each pattern key the line shown is the nearest older (newer) saved line, starting with the current one, that contains the pattern, with the cursor at the match, which is underlined; repeating the search key goes to the next match, "
     "and when there is none the line stays and the search is marked as failing. "
     "Matching is case-sensitive unless folding is configured; deleting pattern characters searches again. "
     "Cancelling restores the line of the position where the search started, any editing key keeps the found line and is applied to it, and Enter submits the found line.",
     ["inputs", "histories"], "every history, pattern and sequence of search and editing keys",
     "No test searches; the guarantee ranges over histories and patterns.",
     ["search.go", "history.go", "runes.go"],
     [("search from the current entry and position", "history.go"), ("search mode state", "search.go")],
     ["the line and cursor after each key", "the search line on the emulated screen"],
     "runtime monitoring: online comparison with an executable reference of the search",
     "Random scripts over small alphabets with many repeated matches; line, cursor, search label and screen compared with the model after each key.")

prop("C11", "Completion inserts only what the completer offered",
     "Tab passes the line and cursor to the completer: no candidate leaves the line alone, one candidate is inserted at the cursor, several with a common beginning insert that beginning, and otherwise all candidates are listed below the line, which stays as it is. "
     "Tab again starts choosing: Tab, Right and Left step through the candidates in order with wrap-around, Up, Down, Ctrl-A and Ctrl-E move within the shown columns, exactly one candidate is highlighted, Enter inserts the highlighted one without submitting the line, and Ctrl-G or Ctrl-C leave the line as it was. "
     "Other keys leave the choice and act on the line, the list disappears when completion ends, and the completer's own data are never modified.",
     ["inputs", "histories", "configurations"], "every completer answer, line, cursor position, screen width and key sequence",
     "Only the segment helper is tested, never the editor's use of a completer.",
     ["complete.go", "operation.go", "runes.go"],
     [("completion and selection modes", "complete.go"), ("common beginning", "runes.go")],
     ["calls of the completer", "the line after each key", "the list and highlight on the emulated screen", "the completer's candidate slices"],
     "runtime monitoring: reference-model comparison with a scripted completer and terminal-emulator oracle",
     "Random completers, lines, widths and key sequences; line, cursor, list, highlight and the completer's data checked after each key.")

prop("C12", "The bundled completers offer exactly the matching continuations",
     "The tree completer follows the words before the cursor down the tree and offers, for the children reached (static names and names computed from the line), exactly the rest, followed by a blank, of every name that starts with the word at the cursor, in order, with the length of that word; words that are not in the tree get no candidates, and text after the cursor does not matter. "
     "The segment completer splits the text before the cursor at blanks, hands the segments and the length of the last one to its function, and offers the rest, followed by a blank, of every answer that starts with the last segment. "
     "Asking never changes the tree or the function's answers, and the tree prints every named node once, indented by depth.",
     ["inputs", "configurations"], "every tree or function, line and cursor position",
     "The segment helper is tested on one tree; the tree completer not at all.",
     ["complete_helper.go", "complete_segment.go", "runes.go"],
     [("recursive descent by typed words", "complete_helper.go"), ("segment split and prefix filter", "complete_segment.go")],
     ["candidates and lengths returned"],
     "runtime monitoring: differential oracle (independent specification) over random trees, lines and cursors",
     "Random and small exhaustive trees with every short line over a small alphabet, compared with an independent specification; the tree and answers are compared before and after.")

prop("C13", "Passwords are returned exactly, never shown, never saved",
     "Reading a password returns exactly the edited text, and nothing typed or searched for while it is read is ever written to the terminal: only the prompt and, where configured, one mask character per typed character. "
     "The password enters neither the history in memory nor the history file, and the history cannot be recalled into it. "
     "Whatever way the password read ends (Enter, Ctrl-C, Ctrl-D, end of input, close), the instance is afterwards as before: prompt, listener, mask, history and its file, and the next ordinary read echoes normally.",
     ["inputs", "histories", "configurations"], "every password, key sequence, outcome, mask and mix with ordinary reads",
     "No test reads a password.",
     ["password.go", "operation.go", "runebuf.go", "history.go", "search.go"],
     [("temporary configuration with masking and without history", "password.go"), ("masked printing", "runebuf.go")],
     ["bytes written to the terminal", "returned password", "history in memory and on disk", "the following reads"],
     "runtime monitoring: secret-flow monitor over everything written plus reference-model comparison",
     "Passwords use characters that occur nowhere else; any of them in the output, history or file is a violation; the masked screen and the reads around it are compared with the model.")

prop("C14", "Close ends a pending read at any moment, from any goroutine",
     "Closing an instance, from any goroutine and any number of times, concurrently with a read, with typing and with output, makes the pending read and all later ones return end of file (or a line already being delivered) and returns itself without waiting for further input. "
     "Afterwards the instance's goroutines have ended, the terminal is out of raw mode, the input is closed, and writing through the instance still writes the text. "
     "Lines delivered before the close are exactly those typed, in order.",
     ["schedules", "histories"], "every moment of closing relative to typing, reading and writing",
     "Tests never close an instance; the outcome depends on the schedule.",
     ["readline.go", "operation.go", "terminal.go", "std.go"],
     [("stop channels selected by reader, editor and terminal goroutines", "operation.go, terminal.go"), ("closing the input", "std.go")],
     ["return of Close and of the read calls", "goroutines left", "raw mode calls", "writer calls"],
     "runtime monitoring: stress with injected and directed delays, hang and goroutine-leak monitors",
     "Sessions closed at every phase by one to three goroutines under random and directed delays; hangs, leaked goroutines, wrong results and raw mode left on are violations.")

prop("C15", "The terminal is raw exactly while a read is pending and restored afterwards",
     "Each read call puts the terminal into raw mode before it waits and takes it out before it returns, whatever the outcome (line, interrupt, end of file, password, close, also by a captured exit signal), Close leaves it out of raw mode, and suspending with Ctrl-Z does so until the process resumes and goes on with the line. "
     "On a real terminal device the terminal's settings after each return and after Close are bit for bit those before the call, output processing stays on while reading, and keys are not echoed by the device while a read is pending. "
     "Terminal size and terminal detection report what the device says, and a size change is used for the next redraw.",
     ["histories", "inputs", "schedules"], "every sequence of reads and outcomes on every terminal setting",
     "Tests run without a terminal.",
     ["operation.go", "terminal.go", "utils.go", "utils_unix.go", "term.go", "term_linux.go"],
     [("enter before, deferred exit after each read", "operation.go"), ("saved terminal state", "utils.go, term.go")],
     ["calls of the raw-mode functions", "termios of a pseudo-terminal", "bytes echoed by the device"],
     "runtime monitoring: call-sequence monitor and termios oracle on real pseudo-terminals",
     "Scripted sessions with recorded raw-mode calls, and sessions of a child process on a pseudo-terminal with random settings, compared bit for bit.")

prop("C16", "A remote session loses nothing and survives a hostile or vanished peer",
     "Bytes sent by a remote client are read by the server's editor completely, in order and once, whatever the message and network chunk sizes, and bytes the server writes reach the client the same way, with the number of bytes written reported; width and terminal reports take effect, and raw mode is entered and left at the client around each read. "
     "The client's end of input, a lost connection or closing makes the server's reads return end of file after the data already received, no later call blocks, the goroutines of a closed session and of one whose handler returned end, a client stops taking input once its connection failed, and a listening server hangs up on a peer whose introduction is malformed. "
     "No message, however malformed, truncated or oversized, crashes either side or makes it allocate memory for data that never arrives.",
     ["inputs", "schedules", "fault_sequences"], "every message sequence, chunking, interleaving and point of disconnection",
     "No test opens a connection; wake-ups and disconnects depend on timing.",
     ["remote.go"],
     [("length-prefixed messages", "remote.go"), ("receive buffer with wake-up, write loop with replies", "remote.go")],
     ["messages on the connection", "what the server's reads return", "process exit"],
     "runtime monitoring: protocol monitor on in-memory and socket connections with chunking, fault and schedule injection",
     "Scripted raw clients over pipes and loopback sockets with random message sizes, fragmentation, malformed frames and disconnects; data conservation, results, hangs and memory are checked.")

prop("C17", "Input wrappers lose and invent nothing",
     "Text put in front of the input with the prefill call is read before anything fetched from the input after it, completely, in order and once, and so is everything typed, whatever the sizes of the prefilled pieces and of the reads; prefilled before a read call it shows as already typed. "
     "A cancellable input passes its source's bytes and errors on unchanged while not closed, closing it makes pending and later reads return end of file, and no bytes are ever delivered twice or written into a buffer of a read that already returned. "
     "A read with default text starts with that text as the line, with the cursor at its end, and Up and Down come back to it.",
     ["inputs", "schedules"], "every prefill, source chunking, read size and moment of closing",
     "No test reads through the wrappers; the data races and partial reads depend on sizes and timing.",
     ["std.go", "terminal.go", "readline.go"],
     [("buffer in front of the source", "std.go"), ("reader goroutine with cancellation", "std.go")],
     ["bytes returned by reads", "buffers after a read returned", "lines read"],
     "runtime monitoring: conservation checker over recorded byte streams, race detector, injected delays",
     "Random sources, read sizes, prefills and closings; the bytes read must be the prefills and the source in order; abandoned buffers are watched for late writes.")

prop("C18", "Documented concurrent use is free of data races",
     "While one goroutine reads lines, others may at the same time write through the instance, change the prompt, refresh or clear the displayed line, report a size change, prefill the input, and close the instance, and between its reads that goroutine may change the configuration, the history and the vim mode; the listener, the filter and the completer may do the same except for closing. "
     "None of this causes a data race, a deadlock or a panic, in ordinary editing, while searching, completing, using vim mode or reading passwords. "
     "Instances used by different goroutines do not interfere with each other.",
     ["schedules"], "every interleaving of these calls with each other and with typing",
     "Only schedules exercised under the race detector can show it; tests are sequential.",
     ["operation.go", "runebuf.go", "search.go", "complete.go", "terminal.go", "history.go", "remote.go"],
     [("locks of buffer, search, completion, configuration and terminal", "runebuf.go, search.go, complete.go, operation.go, terminal.go")],
     ["race detector reports", "progress", "panics"],
     "runtime monitoring: race detector over stress workloads with injected scheduling points",
     "Stress sessions of all documented concurrent calls in every mode in a build with the race detector, half of them with scheduling points before every statement.")

prop("C19", "Rune, width and word helpers agree with their definitions on every input",
     "The exported rune helpers (equality, prefix, first and last occurrence with and without case folding, width, color filtering, trimming, common beginning, copying) give the results of their plain definitions for every input, without panicking and without modifying what they are given (the common-beginning helper's documented shortening of the list excepted), and the two copies of them agree (only the current one counts a tab as the tab width). "
     "Width counts Han, Hangul and Kana characters as two columns, combining, format and control characters as none and others as one, color filtering removes exactly the complete color sequences, and the row helpers split and count text for a positive width so that nothing is lost. "
     "Word boundaries are exactly between letters or digits of ASCII and other characters.",
     ["inputs"], "every rune sequence",
     "Tests cover a handful of strings for three of the helpers.",
     ["runes.go", "runes/runes.go", "utils.go"],
     [("plain loops over runes", "runes.go")],
     ["returned values"],
     "runtime monitoring: differential oracle against independent definitions on exhaustive small and random inputs",
     "All strings up to length 4 over a 6-rune alphabet and random long ones, compared with independent definitions and between the two packages.")

prop("C20", "Listener, filter and painter see every key once and are obeyed",
     "The listener is called with no line when a read starts (what it returns then is ignored) and once after every key that reached the editor (those consumed by vim's normal mode or by choosing a candidate excepted), with the line, the cursor and the key, and a line and cursor it returns replace the current ones. "
     "The filter sees every key before the editor (arguments of vim commands excepted), exactly once and in order; a rejected key changes neither the line nor the screen, a translated key acts as the key it was translated to, and input goes on in either case. "
     "The painter changes only what is shown, never the line that is read, and gets the line and cursor as they are.",
     ["inputs", "histories", "configurations"], "every key sequence and every behaviour of the callbacks",
     "No test installs a callback.",
     ["operation.go", "runebuf.go"],
     [("callback points of the key loop", "operation.go"), ("painting when the line is printed", "runebuf.go")],
     ["calls of the callbacks", "the line and results", "the emulated screen"],
     "runtime monitoring: call-sequence monitor and reference-model comparison with scripted callbacks",
     "Random scripts with listeners that rewrite, filters that reject and translate and painters that recolor; calls, lines, results and screen compared with the model.")

prop("C21", "Configuration changes take effect at once and only where they should",
     "A configuration set between reads, and a prompt, mask, vim mode or history path set between reads or from the listener, applies to everything after it and to nothing before (the input stays that of the first configuration), and changing back restores the former behaviour. "
     "Every configuration has a history of its own, reusing a configuration continues its history, and a changed history path is loaded from and saved to the new file only. "
     "Cloned configurations are independent of the original, and unset options get the documented defaults.",
     ["histories", "configurations"], "every sequence of configuration changes and reads",
     "No test changes the configuration.",
     ["operation.go", "readline.go", "vim.go", "history.go"],
     [("configuration swap with its own history and search", "operation.go"), ("defaults", "readline.go")],
     ["what the reads return and recall", "the emulated screen", "history files"],
     "runtime monitoring: reference-model comparison across random sequences of configuration changes",
     "Random sequences of configuration switches, setters and reads with a model per configuration; results, recalled history, screen and files compared.")

prop("C22", "Keys are decoded the same however their bytes are split",
     "Every byte sequence is decoded into the same keys whatever the boundaries of the pieces it arrives in, and also when signals interrupt the reads: the arrow, Home, End, Delete and Meta sequences of common terminals (both bracket and O forms) act as their keys, multi-byte characters arrive whole, "
     "and unknown or incomplete bracket sequences of digits and a final character (function keys, reports) insert nothing and swallow nothing beyond themselves. "
     "In vim mode Esc is delivered as a key of its own. A NUL is ignored, and cursor-position reports are never inserted into the line.",
     ["inputs", "schedules"], "every concatenation of key encodings and every way of splitting it",
     "No test feeds bytes; splits inside sequences do not occur in unit tests.",
     ["terminal.go", "utils.go"],
     [("escape state machine over runes", "terminal.go"), ("key tables", "utils.go")],
     ["keys seen by the filter", "lines returned"],
     "runtime monitoring: decoded-key oracle over exhaustive splits of key encodings",
     "All two-way splits of every pair of encodings and random chunkings of long sequences; decoded keys compared with a table of documented keys.")

prop("C23", "The package-level functions share one instance that saves only what is added",
     "The package-level functions work on one instance of their own: Line shows the given prompt and returns the edited line, the interrupt error with the text so far, or end of file, and Password returns what was typed without showing it. "
     "Lines read that way are not saved; what AddHistory saves is recalled in the reads after it, and, once a history path is set, is in that file when the call has returned, a failure being reported by it while reading goes on; setting a path loads that file, and an empty path keeps the history in memory. "
     "A completer set is asked from then on, and setting it changes nothing else.",
     ["inputs", "histories"], "every sequence of the package's functions and keys",
     "No test calls the package-level functions.",
     ["std.go", "operation.go", "history.go"],
     [("the shared instance and its configuration changes", "std.go"), ("histories by configuration", "operation.go")],
     ["results of the functions in processes of their own", "the completer's calls", "history files", "the terminal's output"],
     "runtime monitoring: reference-model comparison of processes on pseudo-terminals and pipes",
     "Processes make random sequences of the package's calls; results, completer calls and history files are compared with a model of one instance.")

prop("C24", "The line buffer works as a component of its own",
     "A line buffer that a program makes and uses through its exported methods holds, after every call, the text and cursor that its operations (writing, setting, replacing, moving, deleting, cutting, pasting, swapping) give when applied one after the other, and restoring gives text and cursor as they were when backed up, as often as it is called. "
     "What it tells about itself (text, cursor, length, the text around the cursor, the widths of prompt and text, the row of the cursor and the rows below it) is that of this line laid out in its width, and what a call returned is not changed by later ones. "
     "On a terminal the screen shows prompt, text (masked where configured, styled where asked) and cursor exactly once after every call and nothing after cleaning; without one nothing is written.",
     ["inputs", "histories"], "every sequence of the buffer's methods, text, prompt and width",
     "Sequences of calls with aliasing and wrapping are beyond samples.",
     ["runebuf.go", "runes.go", "utils.go"],
     [("the exported methods of the line buffer", "runebuf.go")],
     ["results of the methods", "what is written to the terminal"],
     "runtime monitoring: reference-model comparison after every call on an instrumented terminal emulator",
     "Random call sequences on a buffer of its own; results and the emulated screen are compared with the line model after every call.")

NOT_YET = set(sys.argv[1:])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         state=[dict(name=n, meaning=m) for n, m in p["state"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

impl = os.path.join(ROOT, "harness", "props")
have = {f[:-3].upper() for f in os.listdir(impl) if f.startswith("c") and f[1:3].isdigit()}
checks, na = [], []
for p in P:
    if p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
                           thorough_cmd="./check.sh " + p["id"] + " -tier thorough",
                           technique=p["technique"],
                           level="fault_enumeration" if p["id"] == "C09" else "exploration",
                           level_note=p["note"] + NOTE))
    else:
        na.append(dict(property=p["id"], reason="the check is not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="/repo carries no hooks: scheduling points are inserted into a copy of the source by the checks (go build -overlay)", source_commits=[]),
         notes="./check.sh ID [-tier quick|thorough] [-seed N] [-only CASE -build NAME -v]")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks")
