#!/usr/bin/env python3
"""Generates /verif/properties.jsonl from the list below (kept here because it is easier to edit than JSONL)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

CFG, UTL, SOC, PRO, MAIN = "src/Configuration.cxx", "src/Utilities.cxx", "src/Socket.cxx", "src/Process.cxx", "src/Main.cxx"

prop("C01", "Loading a configuration is total and memory-safe",
     "For every configuration text, loading it terminates and either yields a configuration or fails with a reported error. It never reads or writes outside the text and its own data, whatever the text contains or wherever it ends.",
     ["inputs"], "every configuration text (any bytes, any length, truncated anywhere)",
     "ConfigurationTest loads eleven fixed texts; the space of texts, and especially of texts cut off inside an escape, quote, section header or reference, is unbounded.",
     [CFG, UTL], [("NUL-terminated scanning with per-character tests", "Configuration.cxx parseString, ensureRestOfLineEmpty, parseHost, load"), ("reference expansion scanner", "Utilities.cxx substituteEnvironmentVariables")],
     observe=["Configuration::load returning or throwing"])

prop("C02", "Quoted configuration strings mean exactly what was written",
     "A string written in single quotes (with each ' doubled) or in double quotes (with the documented escapes \\\" \"\" \\\\ \\' \\b \\t \\n \\f \\r \\0 and \\xHH with any two hex digits of either case) is loaded as exactly the denoted bytes, as an argument, command name, host name or setting value. Adjacent quoted and unquoted pieces are joined into one string, and blanks, # and ] inside quotes do not end it.",
     ["inputs"], "every string content, every escape and digit, every mix of quoting styles",
     "ConfigurationTest exercises three escapes in one line; \\xHH, single-quote doubling at the ends and most characters are never loaded.",
     [CFG], [("quote and escape state machine", "Configuration.cxx parseString"), ("hex digit decoding", "Configuration.cxx parseHexValue")],
     observe=["Configuration::Command::getExecutable/getName", "Configuration::Host::getHostname", "Configuration::getBaseDirectory"])

prop("C03", "Environment references expand exactly and nothing else changes",
     "Expanding a text replaces each complete ${NAME} by the variable's value (or nothing if undefined) and each ${NAME:-default} by the value if the variable is defined and by the default text otherwise (a NAME consists of letters, digits, _ - . ( ) and spaces), leaves every other character untouched and in order, and never re-expands inserted values. Variables computed for the command take precedence over the process environment. In a configuration, unquoted and double-quoted pieces are expanded and single-quoted pieces never are.",
     ["inputs"], "every text, every set of defined variables and values, every override",
     "Tests expand five well-formed references; incomplete, adjacent, nested-looking and default-carrying references, and overrides, are not reached.",
     [UTL, CFG], [("reference scanner and append offsets", "Utilities.cxx substituteEnvironmentVariables"), ("override lookup", "Utilities.cxx getEnvironmentVariable(overrides, name)"), ("per-piece substitution start", "Configuration.cxx parseString substituteStart")],
     observe=["Utilities::substituteEnvironmentVariables", "Configuration::load"])

prop("C04", "Commands carry the host and port of the section that lists them",
     "Every command in a loaded configuration reports the host name, port and server options of the section it is listed in, both when looked up as a client command and when looked up for its host; a section without a port gets the previous section's port plus one, starting from 1120, and an explicit port is taken exactly. A port that is not a decimal number in 0..65535, or a default that would pass 65535, is rejected. A command name listed for several hosts stays available to each of those hosts, and the last listing is the one clients use; where one host lists a name more than once, in one section or in several, the last of these listings is the one that host runs.",
     ["inputs", "configurations"], "every sequence of sections, explicit or omitted ports, options and commands",
     "Tests look at host maps of one configuration with three sections and never at a port or an option value.",
     [CFG, "src/Configuration.hxx"], [("section handling and port counter", "Configuration.cxx load, host section branch"), ("command maps", "Configuration.cxx load, executable branch")],
     state=[("currentPort", "next default port", "Configuration.cxx load")],
     observe=["Configuration::getCommands", "Command::getHost"])

prop("C05", "Command lines split into environment, executable and arguments",
     "In a command line the first word is the name; following words that contain = after their first character are environment entries, split at the first such =, until the first other word, which is the executable; every later word is an argument even if it contains =. With no executable word the command name is used. A command has the environment entries of its own section header (the leading NAME=value words there, never another section's) followed by its own, in order.",
     ["inputs"], "every list of words per line, every section header",
     "Tests check a handful of fixed lines; empty words, words starting with =, = inside arguments and header environments following another section's are not covered.",
     [CFG], [("word classification", "Configuration.cxx load, executable branch"), ("section environment reset and option trimming", "Configuration.cxx load, host section branch")],
     observe=["Command::getExecutable", "Command::getEnvironmentVariables", "Host::getOptions"])

prop("C06", "Malformed configuration text is rejected, never half-accepted",
     "A text with an unknown setting, a setting followed by extra words, an unterminated quote, an unknown or incomplete escape, a section header without a name or without its closing bracket on the same line, or a setting value that is not a number where one is needed makes loading fail. No configuration object is produced from such a text.",
     ["inputs"], "every malformed text of the listed kinds, at every position",
     "Eleven fixed bad texts are tested; the kinds combine with arbitrary surrounding content.",
     [CFG], [("end of line check", "Configuration.cxx ensureRestOfLineEmpty"), ("header check", "Configuration.cxx parseHost"), ("quote/escape errors", "Configuration.cxx parseString"), ("setting dispatch", "Configuration.cxx load")],
     observe=["Configuration::load throwing"])

prop("C07", "Common settings have their documented effect and defaults",
     "The base directory of a loaded configuration is always an absolute, normalized path: the given value if absolute, the value relative to the configuration's directory if relative, and the configuration's directory if not set; the connect timeout is exactly the number given (negative meaning retry forever) and 30000 if not set. A repeated setting takes its last value, and comments and blank lines never change a setting.",
     ["inputs", "configurations"], "every setting value, configuration directory and order of settings",
     "One base directory is tested; the timeout, absolute values, defaults and repetition are not.",
     [CFG, UTL], [("defaults and setting dispatch", "Configuration.cxx load"), ("absolute path and normalization", "Utilities.cxx getAbsolutePath, normalizePath")],
     observe=["Configuration::getBaseDirectory", "Configuration::getConnectTimeoutMs"])

prop("C08", "Path normalization keeps the meaning and yields a canonical form",
     "For every path, the normalized path names the same location lexically (same root, . ignored, .. cancelling the directory before it or ignored at the root, leading .. kept for relative paths), contains no empty or . component and no .. after a directory, has no trailing separator except for the root, and normalizing it again changes nothing.",
     ["inputs"], "every path string",
     "Six fixed paths are tested; interactions of leading .., cancelled directories and separators need arbitrary sequences.",
     [UTL], [("directory start stack", "Utilities.cxx normalizePath")],
     state=[("directories", "offsets at which each kept directory starts", "Utilities.cxx normalizePath")],
     observe=["Utilities::normalizePath"])

prop("C09", "Relative working directories are exact or refused",
     "Relativizing an absolute path against an absolute parent yields a remainder that, appended to the parent, names the same path, and it succeeds whenever the parent's components are a prefix of the path's (repeated separators and . components ignored). If the parent's components are not a prefix, including when only part of a component matches, it fails; it never reads outside either string.",
     ["inputs"], "every pair of absolute paths",
     "Two successes and two failures are tested.",
     [UTL], [("two-cursor component walk", "Utilities.cxx relativizePath")],
     observe=["Utilities::relativizePath"])

prop("C10", "Client requests reach the server's command exactly",
     "A client invocation sends its working directory relative to the base directory, each argument, each declared environment variable that is set, and finally the command name, and the server started with that byte stream runs the configured executable words followed by exactly the client's arguments, byte for byte and in order. This holds for every argument length and content and for every way the connection splits or partially accepts the stream.",
     ["inputs", "schedules"], "every argument list, length and content; every segmentation of the byte stream by send and recv",
     "k8pshTest sends at most one one-byte argument over loopback, which never splits or fills a buffer.",
     [PRO, SOC], [("payload header encoding and send buffer", "Process.cxx BufferedSendSocket::write"), ("payload header decoding and receive buffer", "Process.cxx BufferedReceiveSocket::read, readString"), ("request loop", "Process.cxx Process::run, runRemoteCommand")],
     state=[("_readOffset/_end", "unread window of the receive buffer", "Process.cxx BufferedReceiveSocket"), ("_end", "fill of the send buffer", "Process.cxx BufferedSendSocket")],
     observe=["bytes passed to send", "argv passed to execv/execvp"])

prop("C11", "A command's environment is exactly what its configuration grants",
     "The executed command's environment contains exactly the variables its configuration lists that have a value, each once: a plain variable takes the client's value or else its expanded default, a ? variable likewise but is inherited from the server when it has no default, and a = variable never takes the client's value. Nothing else from the client or the server's environment gets through, and a later entry for the same name sees and overrides the earlier one. The client sends only variables listed as plain or ? that are set on its side.",
     ["inputs", "configurations"], "every combination of variable kinds, defaults, client values and server environment",
     "k8pshTest covers one plain, one ? and one = variable without defaults or repetition.",
     [PRO, UTL], [("received variable map and layering", "Process.cxx Process::run environment building"), ("client-side filter", "Process.cxx runRemoteCommand")],
     observe=["environ at execv", "ENVIRONMENT_VARIABLE payloads sent"])

prop("C12", "A server runs only its configured commands, and only complete requests",
     "A server starts a process only after receiving a complete request naming a command configured for its own host, and the program started is the configured executable, never one chosen by the client. A request naming an unknown command, containing a message that does not belong in a request, or cut off at any point starts nothing and the connection is dropped.",
     ["inputs", "fault_sequences"], "every byte stream a peer can send, cut off at every point",
     "Tests only send well-formed requests for known commands.",
     [PRO], [("request state machine", "Process.cxx Process::run request loop"), ("command lookup", "Process.cxx Process::run"), ("short read detection", "Process.cxx BufferedReceiveSocket::read, readString")],
     observe=["fork", "execv argv[0]"])

prop("C13", "Commands start in the right directory with only their own streams",
     "A command is executed only after its working directory (base directory joined with the client's relative directory) has been entered; if that fails, or a stream cannot be connected, or the program cannot be started, it is not run and the client never sees a normal exit. It starts with standard input, output and error connected to the client's session and no other descriptor of the server open, with default child and pipe signal handling.",
     ["fault_sequences", "inputs"], "every outcome of chdir, dup2, execv/execvp and every directory name",
     "Tests run commands whose setup succeeds and never look at descriptors or signal dispositions.",
     [PRO, UTL, MAIN], [("child setup sequence", "Process.cxx Process::run fork case 0"), ("handle remapping", "Utilities.cxx remapPipeHandle"), ("server descriptors in the child", "Main.cxx mainServer client fork")],
     observe=["chdir, dup2, close, signal, execv/execvp calls of the child"])

prop("C14", "Standard input reaches the command completely and in order",
     "The bytes a client sends as standard input are written to the command's standard input exactly once and in order, however the stream is segmented and however little of it the command accepts at a time, and end of input is signalled after the last byte and only after it. If the command stops reading, the client is told, the rest of the input is discarded without disturbing the session, and the command is not terminated because of it. What has arrived is passed on before the server waits for anything else.",
     ["schedules", "inputs", "histories"], "every interleaving of socket data, partial or refused pipe writes, input end and command behaviour",
     "k8pshTest sends one ten-byte input and one input to a command that closed its streams; partial writes and data arriving after the close never occur.",
     [PRO, UTL], [("pending input buffer", "Process.cxx Process::run stdInData/closeStdIn"), ("non-blocking pipe write", "Utilities.cxx Pipe::write"), ("payload consumption", "Process.cxx Process::run STDIN_DATA")],
     state=[("stdInData", "input accepted from the client and not yet written", "Process.cxx Process::run"), ("closeStdIn", "end of input requested", "Process.cxx Process::run")],
     observe=["write/close on the stdin pipe", "send to the client"])

prop("C15", "Command output reaches the client stream completely and in order",
     "Everything the command writes to standard output and to standard error is sent to the client exactly once, in order per stream and under the right stream label, followed by one end-of-stream notice per stream, and all of it is sent before the exit code. This holds for every chunking of the pipes, every interleaving of the two streams with process exit, and output that arrives after the process has exited. Output the server has read is sent before it waits for anything else.",
     ["schedules", "inputs"], "every interleaving of readable pipes, pipe ends, process exit and socket traffic",
     "k8pshTest sees one short write per stream.",
     [PRO, UTL], [("stdout/stderr pumping", "Process.cxx Process::run main loop"), ("exit code after both pipes ended", "Process.cxx Process::run loop condition"), ("pipe read", "Utilities.cxx Pipe::read")],
     observe=["send to the client"])

prop("C16", "Exit codes are faithful and abnormal ends never look normal",
     "The client's exit code equals the command's exit code for every value 0..255. If the command dies from a signal, cannot be started, or the session is cut at any point, the server sends no exit code and the client does not exit normally.",
     ["inputs", "fault_sequences"], "every exit status, every point at which the session ends early",
     "Exit codes 0 to 3 are tested, with no signal death and no lost connection.",
     [PRO], [("exit code message", "Process.cxx Process::run WIFEXITED block"), ("exit code decoding and abort", "Process.cxx runRemoteCommand")],
     observe=["EXIT_CODE payload", "client return value or abort"])

prop("C17", "A vanished client terminates its command, and nothing else",
     "If the client's connection ends or fails in any way (orderly close, reset, error on reading, writing or polling, invalid message) or the client asks for termination while the command runs, the server sends the command a termination signal and ends the session. It never signals a process that has already been reaped or that it did not start, and a session that completes normally sends no signal.",
     ["fault_sequences", "schedules"], "every point and manner of connection failure during a session",
     "No test drops a connection.",
     [PRO], [("termination on socket end or invalid payload", "Process.cxx Process::run default payload case"), ("error paths of the session loop", "Process.cxx Process::run, Socket.cxx")],
     observe=["kill calls", "waitpid results"])

prop("C18", "The client forwards its standard input completely",
     "After the request, the client sends exactly the bytes it reads from standard input, once and in order, and one end-of-input message when its input ends, for every read size and for every interleaving with server messages. After the server reports that the command closed its input, the client neither uses its standard input again nor spins on it.",
     ["schedules", "inputs"], "every chunking of stdin, every interleaving with server messages",
     "k8pshTest forwards one short input.",
     [PRO], [("stdin pump", "Process.cxx runRemoteCommand poll loop"), ("close notice", "Process.cxx runRemoteCommand STDIN_DATA")],
     observe=["read(0), poll set, send"])

prop("C19", "The client delivers server output exactly, promptly and in order",
     "Each output byte received for standard output or standard error is written to the client's matching stream exactly once and in order, for every segmentation of the connection and every message size, and a stream is closed when and only when the server says so. Output already received is passed on to the operating system before the client waits for more. A message that is not allowed from the server, or data for a closed stream, or a failing output stream ends the client with an error.",
     ["schedules", "inputs", "fault_sequences"], "every message sequence, segmentation and output failure",
     "k8pshTest receives one short message per stream and checks the files after exit.",
     [PRO, SOC], [("output dispatch", "Process.cxx outputStdStreamData, runRemoteCommand"), ("receive buffer", "Process.cxx BufferedReceiveSocket")],
     observe=["fwrite/fflush/fclose on stdout and stderr"])

prop("C20", "Sockets are confined to loopback and use the exact port",
     "A server socket is bound only to 127.0.0.1 at exactly the requested port, and a client connects only to 127.0.0.1 at exactly the requested port, for every port number. A failure to create, configure, bind or listen is reported as an error and leaves no socket open.",
     ["inputs", "fault_sequences"], "every port 0..65535, every failing call",
     "SocketTest uses one random port on success paths.",
     [SOC], [("address construction", "Socket.cxx Socket::listen, Socket::connect"), ("error handling", "Socket.cxx createSocketHandle, listen, connect")],
     observe=["bind, connect, listen arguments"])

prop("C21", "Socket transfers are exact under partial transfers and errors",
     "A write sends exactly the requested range, in order, however the system splits it, and returns the full count or fails; a read stores received bytes contiguously at the requested offset, never outside the buffer, and returns their count, a waiting read returns less than the rest of the buffer only at end of stream. Transfer errors are reported, not ignored.",
     ["schedules", "inputs", "fault_sequences"], "every offset, range, split of transfers and error",
     "SocketTest transfers eleven bytes that are never split.",
     [SOC], [("send loop", "Socket.cxx Socket::write"), ("receive loop", "Socket.cxx socketRead")],
     observe=["send/recv arguments", "return values"])

prop("C22", "Descriptors are closed exactly once and never leak",
     "Over every sequence of creating, moving, assigning, abandoning and closing sockets and pipes, each descriptor is closed exactly once by its last owner (or handed out by abandon), never used after it is closed, and never left open when its owner goes away, including when an operation fails.",
     ["histories", "fault_sequences"], "every operation sequence over sockets and pipes, every failing call",
     "SocketTest performs one straight sequence.",
     [SOC, UTL, "src/Socket.hxx"], [("move and close", "Socket.hxx Socket(Socket&&), operator=, close"), ("pipe ends", "Utilities.cxx Pipe")],
     observe=["close, dup2, shutdown calls"])

prop("C23", "Connecting retries until the configured deadline and no longer",
     "While the server cannot be reached, the client keeps retrying with pauses of at most one second until the configured timeout has passed, and forever if it is negative, and then fails; it never gives up earlier, for any timeout value, and connects as soon as an attempt succeeds. A pause never extends beyond the deadline.",
     ["inputs", "schedules"], "every timeout value, every passage of time between attempts, every number of failed attempts",
     "The tests' server is up before the client starts.",
     [PRO, SOC], [("retry loop and deadline arithmetic", "Process.cxx runRemoteCommand")],
     observe=["connect attempts, sleeps, clock reads, final error"])

prop("C24", "A server accepts up to its limits and stops when it must",
     "A server handles every accepted connection in its own process and stops accepting after exactly the configured number of connections (never, if negative) or when the configured time has passed (never, if negative), for every limit value. Accepts that fail temporarily (EAGAIN, ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM) are not counted and do not stop it. On stopping it waits for all running connections unless told not to.",
     ["schedules", "inputs", "fault_sequences"], "every limit value, every order of arrivals, spurious wake-ups, accept failures and time",
     "k8pshTest serves four connections with one setting.",
     [MAIN], [("listener loop", "Main.cxx mainServer main loop"), ("wait for children", "Main.cxx mainServer wait loop")],
     observe=["poll, accept, fork, wait calls, exit"])

prop("C25", "A stop signal stops the server even while commands run",
     "After SIGTERM or SIGINT (or SIGHUP when not in the background) a server stops accepting connections, regardless of how many connections or commands are still running, and then shuts down normally. Neither connection processes nor the commands they run keep the server from noticing the signal.",
     ["schedules", "histories"], "every arrival point of the signal, any number of running connections",
     "No test stops a server with a signal while a connection is open.",
     [MAIN, UTL], [("exit pipe", "Main.cxx exitRequested, handleSignal"), ("descriptor hygiene in the connection process", "Main.cxx mainServer client fork")],
     observe=["signal registrations, poll results, descriptors held by children"])

prop("C26", "One connection's failure never affects the server or its files",
     "Whatever happens in a connection's process (malformed request, unknown command, lost client, failing command start), the server keeps listening, and that process never removes client executables or the PID file, never accepts connections, and ends. The listening socket is not kept open by connection processes and client sockets are not kept open by the server.",
     ["fault_sequences", "schedules"], "every failure in a connection process",
     "No test makes a connection fail.",
     [MAIN, PRO], [("client fork", "Main.cxx mainServer main loop"), ("cleanup on exception", "Main.cxx mainServer catch block")],
     observe=["unlink, close, accept calls per process"])

prop("C27", "Exactly the right client executables are created",
     "A starting server creates, in the configured directory, one link to its own program for each command of other hosts, and for its own host's commands only when asked to; none when disabled, and earlier ones are then removed, so that only local programs are found under these names. Existing files are only removed when overwriting or disabling was requested, and then only those named after configured commands; otherwise an existing file makes the start fail and is left alone.",
     ["configurations", "fault_sequences"], "every configuration, option combination and pre-existing directory content",
     "k8pshTest creates four links with one option set in an empty directory.",
     [MAIN], [("stub creation loop", "Main.cxx mainServer")],
     observe=["symlink, unlink calls"])

prop("C28", "Created client executables and PID files are removed on exit, and only those",
     "When a server ends, normally or with an error at any stage, it removes exactly the client executables and PID file it created, at the place it created them, including when it runs in the background with relative paths; it never removes a file it did not create this way. With keep requested, or when the host has no commands to serve, client executables stay.",
     ["fault_sequences", "configurations"], "every stage at which start-up or serving fails, every option combination",
     "k8pshTest never checks the directory after the server ended.",
     [MAIN, UTL], [("cleanup", "Main.cxx mainServer cleanup lambda and catch block"), ("created list", "Main.cxx mainServer createdExecutables")],
     observe=["unlink calls with the working directory at that time"])

prop("C29", "Server options mean the same however and wherever they are given",
     "Each serving option (background, disable, executable directory, keep, local, maximum connections, overwrite, PID file, timeout, no-wait) behaves the same in its short form, long form, long form with =value, on the command line and in the configuration's section header; command line values override the configuration's. An unknown option, a missing option value or an unreadable configuration is an error, or with the ignore option an unknown one is skipped with a warning, and the server name is the given name, else the environment's, else the host name.",
     ["inputs", "configurations"], "every option, spelling, place and order",
     "k8pshTest uses five long options in one order.",
     [MAIN], [("parseOption", "Main.cxx parseOption"), ("deferred option processing", "Main.cxx mainServer")],
     observe=["effects of the options on system calls"])

prop("C30", "Client invocations pick the right command and pass arguments through",
     "Run under a stub's name, the client runs the command of that name with all its arguments verbatim, even those that look like options; run under its own name, it interprets its own options up to the first non-option word, runs that command and passes all later words verbatim. The configuration file is the one given as an option, else in the environment, else the default, and an unknown command or unreadable configuration is an error before anything is sent.",
     ["inputs"], "every argument list and program name",
     "k8pshTest runs three stubs with at most one argument.",
     [MAIN], [("option loop", "Main.cxx mainClient"), ("configuration choice", "Main.cxx getConfiguration")],
     observe=["requests sent, configuration file opened"])

prop("C31", "Installing produces an exact copy or reports failure",
     "After a successful install the target is a link to, or byte-for-byte copy of, the running program and nothing more, whether or not the target existed before and whatever sizes the reads and writes are split into. Any failure to open, read or write is reported as an error.",
     ["fault_sequences", "inputs"], "every split, interruption and failure of reads and writes, every previous content of the target",
     "No test installs.",
     [MAIN], [("copy loop", "Main.cxx mainClient --install")],
     observe=["link, open, read, write calls; final content of the target"])

prop("C32", "Background start detaches safely and records its PID",
     "In background mode the starting process exits successfully without touching the server's files, and the background process becomes a session leader, has its standard streams on the null device, and writes its own PID and a newline to the PID file, which must not exist before. If any of these steps fails it reports an error and does not serve.",
     ["fault_sequences"], "every failing step of daemon start",
     "The CI check starts one daemon and reads its PID file.",
     [MAIN], [("daemon block", "Main.cxx mainServer")],
     observe=["fork, setsid, open, write, dup2, poll calls"])

prop("C33", "Debug output is selected exactly by the list",
     "Debug messages of a source file are enabled if and only if the selection list contains that file's base name without extension, or the word all, as a complete entry, ignoring case and surrounding blanks, with entries separated by commas or semicolons. Without a list, or with an empty one, none are.",
     ["inputs"], "every list and file name",
     "Tests set two lists and do not check what is printed.",
     [UTL], [("list search", "Utilities.cxx listContainsCaseInsensitive"), ("debug name", "Utilities.cxx getDebugName")],
     observe=["Logger::shouldLogDebug"])

prop("C34", "Base name and parent directory split a path consistently",
     "For every path, the base name is its last component without trailing separators (. for an empty path, / for the root), the parent directory is everything before the last separator run (keeping the root), and for paths without trailing separator joining parent and base name gives the same location back. Neither reads outside the string.",
     ["inputs"], "every path string",
     "Nine base names are tested and no parent directory.",
     [UTL], [("backwards scans", "Utilities.cxx getBasename, getParentDirectory")],
     observe=["Utilities::getBasename, getParentDirectory"])

prop("C35", "Files are read whole or not at all",
     "Reading a file yields exactly its bytes (NUL bytes and an empty file included), however the reads are split. A file that cannot be opened is absent, which differs from empty. A file that was opened but cannot be read completely (a failing or early ending read, a file that cannot be positioned, a directory) is an error; a part of it is never returned as if it were the file.",
     ["inputs", "fault points"], "every content, every split of the reads and every failure of opening, positioning or reading",
     "The tests read files that exist and can be read at once; contents with NUL bytes, failing reads, and files that shrink are never produced.",
     [UTL, MAIN], [("size, read and completeness check", "Utilities.cxx readFile"), ("absent configuration", "Main.cxx getConfiguration")],
     observe=["the result of Utilities::readFile"])

prop("C36", "Names of the host, program and directories are exact at any length",
     "The working directory, the path of the running program and the host name are obtained exactly as the system has them, whatever their length and however often they are asked for, also when an earlier answer was longer or shorter. A working directory that cannot be determined is reported as empty, and no name is ever made up or cut off. Memory outside the buffers used is never touched.",
     ["inputs", "histories", "fault points"], "every name, every length (around the buffer size and its doublings) and every order of lengths over repeated calls",
     "UtilitiesTest runs in one directory with one host name; names as long as the buffer, which the three interfaces report in three different ways, never occur.",
     [UTL], [("growing buffer", "Utilities.cxx getWorkingDirectory, getExecutablePath, getHostname"), ("remembered size", "Utilities.cxx initialBufferSize"), ("absolute paths", "Utilities.cxx getAbsolutePath")],
     observe=["the results of Utilities::getWorkingDirectory, getExecutablePath, getHostname, getAbsolutePath"])

prop("C37", "A session of client and server together is transparent and always ends",
     "For client and server working together on one connection, whatever the command does and in whatever order the two, the command and the user move: all the command (or a process it leaves behind with its outputs) writes appears on the client's standard output and standard error, once, in order and before the client ends; the command receives exactly the user's input, and its end only after all of it; the client exits with the command's code if the command exits, and fails otherwise. The session never hangs: it ends once the command has ended and its outputs are closed, even when buffers fill in both directions, when the command does not read its input or has closed its streams, or when the user's input stays open. If the client is lost the command is terminated; if the server is lost the client fails and never reports success without the command's code.",
     ["schedules", "histories", "crash points", "inputs"], "every order in which client, server, command and user move, every buffer state, every command behaviour and every point at which client or server is lost",
     "k8pshTest runs a few sessions with one schedule each; which side waits for which, full buffers in both directions and losses at each point are never steered, and two sides that each look right alone can still wait for each other.",
     [PRO, SOC], [("client loop", "Process.cxx Process::runRemoteCommand"), ("server loop", "Process.cxx Process::run"), ("messages", "Process.cxx BufferedReceiveSocket, BufferedSendSocket; Socket.cxx read, write")],
     state=[("connection", "bytes under way in each direction", "Socket.cxx"), ("pipes", "bytes between the server and the command", "Process.cxx Pipe")],
     observe=["the client's standard streams and exit code", "the command's input, exit and signals", "which party waits for what"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
