how("C01", "Configuration::load runs on a text whose bytes are all symbolic, alone and behind prefixes that reach every parser state; every load and store is checked against object bounds, every path must end in a result or an exception",
    "memory safety, termination (step limit), no abnormal end; the result is then queried the way client and server do",
    "all 256^5 texts per prefix, including NUL, unterminated constructs at the end of the text and text ends in every state")
how("C02", "words are built by the harness from symbolic choices (pieces, escapes, bytes, hex digits) together with the bytes they denote, written into a configuration and loaded",
    "the denoted bytes, computed by the harness while it builds the word (not by parsing)", "every escape with every hex digit of either case in every position of a word; every adjacency of quoted and unquoted pieces")
how("C03", "Configuration's expansion is called with texts of symbolic bytes and skeletons around symbolic names and defaults, against a symbolic environment and override table",
    "an independent reference expansion in the harness, compared as one solver condition", "names and defaults that are almost references, nesting, adjacent references, values that look like references")
how("C04", "three sections with symbolic ports (as digits or arbitrary bytes) and symbolic placement of commands are loaded; every command is looked up for clients and for each host",
    "ports computed by the harness in wide arithmetic from the digits; last listing wins for clients", "all ports and overflows (default after 65535, 64-bit wraps), every combination of repeated names")
how("C05", "section header and command words of symbolic bytes, each unquoted, quoted or empty", "a reference split at the first `=` after the first character, applied to the words the harness wrote", "words such as `=`, `a=`, `==`, empty words, quoted `=`; header entries never leak into other sections")
how("C06", "nine malformed kinds are instantiated with symbolic bytes (constrained only so that the text is malformed) at up to eight places in a file", "load must throw", "malformation with every content, and where a parser in another state might accept it")
how("C07", "settings with symbolic values, comments and blanks of symbolic bytes around them; base directories against several configuration directories", "numeric value by wide arithmetic; the normalised path by an independent lexical reference", "all digits at the limits of the type, comments that look like settings, repeated settings")
how("C08", "normalizePath on a path of symbolic bytes", "component stack computed by the harness; canonical form and idempotence asserted", "every path up to the length; found `../a` → `..a` (fixed a332343)")
how("C09", "relativizePath on two symbolic paths (NUL-terminated, in exactly sized objects)", "component prefix relation computed by the harness; appended result names the same path", "partial component matches, repeated separators, reading past either string")
how("C10", "Process::runRemoteCommand runs on symbolic arguments and directories and its bytes are captured; the server code then runs in the same path on exactly that stream with symbolic segmentation up to exec", "argv at exec: configured words then client's arguments, compared with the solver", "strings that end anywhere relative to the 8192-byte buffers, every placement of short sends and receives")
how("C11", "as C10, with symbolic presence and values of each variable on the client and on the server", "a reference evaluation of the entries; set comparison of envp at exec; client messages only for listed variables", "every combination of entry kinds, references between entries, shadowing")
how("C12", "the server reads a stream of symbolic messages: types, lengths, payloads, truncation and segmentation symbolic; also wholly arbitrary bytes", "a reference reading of the same bytes decides: nothing, first or second command", "length fields of every magnitude, truncation after every byte, unknown types, commands of other hosts, start message twice")
how("C13", "from main() through accept and fork into the command's process: every descriptor, directory and signal step is observed up to exec", "descriptor table at exec holds the three streams of the session only; directory entered; SIGCHLD/SIGPIPE default", "every single (thorough: pair of) failing system call, n-th connection, foreground and background")
how("C14", "Process::run as a session against a model of the command, the client and the kernel's pipes; which event happens at each poll is symbolic", "byte-exact stream of what is written to the command, position of the end of input, notices to the client", "every interleaving of arrival, partial writes, close of the input, exit; queued input across buffer ends; found the unconsumed data after a closed input (fixed e2bbd54)")
how("C15", "as C14 with output on both streams", "a frame parser in the model checks label, order, count, notices, and position of the exit code; nothing may be kept back before a wait", "output that arrives after exit, grandchildren holding streams, partial sends, a client that stops")
how("C16", "server sessions with symbolic exit status; client sessions with a symbolic exit code and a cut after every byte", "exit code sent equals WEXITSTATUS; client's exit equals the code received; otherwise never a normal end", "all status words; every cut point; resets after the code was sent (fixed d1f589a)")
how("C17", "as C14, client's departure in every form at any event", "kill only for the running command, exactly when the client is gone or asks; a session that lasts 50 more polls without it is a violation", "departure while input is queued, while streams are closed, during partial transfers (fixed bff1391, 6e56575)")
how("C18", "Process::runRemoteCommand's session loop against a model of standard input, server and output streams", "input messages' bytes in order, exactly one end; no poll or read of standard input after the notice; no spin (bounded polls without event)", "interleavings of notices and data, every read size, EOF as HUP only (fixed 94e3c33)")
how("C19", "as C18 with server messages of symbolic type, payload, segmentation and truncation", "bytes at the operating system (below stdio) equal the payloads; flushed before every wait; errors end abnormally", "messages around buffer sizes, announced lengths of every magnitude, failing streams (fixed a06035a)")
how("C20", "Socket listen/connect with a symbolic port and symbolic failures", "sockaddr bytes at bind/connect; descriptors open afterwards", "all 65536 ports, every errno at every call")
how("C21", "Socket read/write and the pipe functions with symbolic offsets, sizes and per-call results", "reference buffer; counts; errors thrown", "every split and every errno at every call")
how("C22", "symbolic sequences of operations on sockets and pipes in the descriptor model (no double close, no use after close, no leak)", "the model's descriptor table", "all operation sequences up to the bound with any failure")
how("C23", "the connect loop with a symbolic clock: every clock read and sleep advances it by a symbolic amount, attempts fail symbolically", "deadline = start + timeout in exact arithmetic (translated exactly to integers for Z3)", "rounding, overflow of the deadline, pauses across the deadline (fixed b108d8d)")
how("C24", "main() as a server: poll/accept/fork with symbolic events, limits and clock", "count of accepted connections and deadline in exact arithmetic; waiting for children", "limit values up to 19 digits, temporary errors at every accept (fixed 4d1d96e, c1ce42b)")
how("C25", "as C24, a signal may arrive before, during and after every poll, accept and fork; the handler itself is executed at that point", "after delivery no further accept, at most the current poll round; handler touches no heap", "all placements; children never hold the pipe that carries the request (fixed 591fbb0, 2ca7f97)")
how("C26", "main() into the connection's process for the n-th connection with symbolic requests and failures", "unlink/accept/listen by that process are violations; it must end; server's descriptors", "failures that unwind into the server's own clean-up (fixed a3089d9)")
how("C27", "main() with a symbolic set of options and existing files", "the set of links computed from the configuration the harness wrote", "every combination of options and existing files; failure half way")
how("C28", "as C27 through to every way of ending", "ownership per file: created here or not; removal exactly then, at the same absolute place", "failures during start, during clean-up, relative paths in the background (fixed 1f323d7, b77ad4a)")
how("C29", "main() with every option in a symbolic spelling and place", "effect on the system (files, limits, background) equals the one of the option's canonical meaning", "all subsets and mixed spellings, prefixes of options, missing values")
how("C30", "main() as a client with symbolic program name and words", "reference reading of the words; arguments handed to the session byte for byte", "words that look like options after the command, abbreviations, `=` forms")
how("C31", "main() --install with symbolic file contents, existing target, and every split or failure", "target content equals the program, or an error is reported", "sizes around the copy buffer, interrupted calls, longer existing targets (fixed fe1b22d)")
how("C32", "main() --background in both processes with every failing call", "starting process exits 0 only after success and touches nothing; daemon steps observed in order", "each step failing, existing PID file, short PID writes (fixed b77ad4a)")
how("C33", "Utilities' debug selection on symbolic lists", "reference splitting of the list by the harness", "near misses: parts of names, separators, blanks and case in every position")
how("C34", "getBaseName and getParentDirectory on symbolic paths", "reference split", "every path up to the length; memory safety on both ends")
how("C35", "readFile with symbolic content, sizes and per-read results", "content equality, absent vs. error", "short and failing reads at every position")
how("C36", "getWorkingDirectory, getExecutablePath, getHostname against names of lengths around the buffers", "name equality", "names exactly as long as, one longer and shorter than the buffer and each doubling; repeated calls with changing lengths")
how("C37", "Process::runRemoteCommand and Process::run execute together, as two coroutines of the executor that switch when one waits and at freely chosen calls, over a model of one connection (bounded in each direction), three pipes, a scripted command with symbolic steps and bytes, and a user", "the command's and the user's own records of what they wrote and read; a wait that no party can end is a hang; losses checked on both sides", "deadlocks and losses that need both sides: full connection both ways, output after the end of input, an exit that overtakes output, a command that ignores its input, every point of losing a side")
