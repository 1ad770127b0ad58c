#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


MAIN, PROC, SOCK, UTIL, CONF = ("src/Main.cxx", "src/Process.cxx", "src/Socket.cxx",
                                "src/Utilities.cxx", "src/Configuration.cxx")

prop("C01", "Remote output reaches the client byte for byte",
     "Every byte the remote command writes to its standard output (standard error) comes out of the client's standard output (standard error), unchanged, in order, exactly once and on the right stream. "
     "This holds for any content, any total size, any pattern of write sizes and any interleaving of the two streams, and nothing else is added to either stream. "
     "All output written before the remote command ended has been delivered by the time the client exits with the remote exit code, and when the remote command closes one of its output streams the client closes that stream and keeps relaying the other. "
     "The same goes for what processes write that the remote command started and that outlive it: the client relays it for as long as they hold the command's output streams, and then exits with the exit code of the command itself.",
     ["inputs", "histories"],
     "all byte contents, sizes (0 to several MB), write sequences and interleavings over the two streams, early closes of either stream, the end of the command before, between or after the writes of a process it leaves behind, fast or stalled consumers",
     "The tests relay two strings of about ten characters, one stream at a time; buffer-boundary sizes, binary data, both streams at once and multi-megabyte transfers are never exercised.",
     [PROC, UTIL, SOCK],
     [("outputStdStreamData", PROC), ("server relay loop over stdout/stderr pipes", PROC), ("BufferedSendSocket / BufferedReceiveSocket", PROC), ("Pipe::read", UTIL)],
     [("BufferedReceiveSocket window", "undelivered bytes received from the socket", PROC)],
     ["client stdout", "client stderr", "client exit"])

prop("C02", "Client stdin reaches the remote command byte for byte, then end-of-file",
     "Every byte available on the client's standard input is readable by the remote command on its standard input, unchanged, in order and exactly once, however the input is chunked or buffered and however slowly or irregularly the remote command reads it. "
     "The remote command sees end-of-file after, and only after, the client's input has ended and every byte of it has been delivered; while the client's input stays open the remote command does not see end-of-file.",
     ["inputs", "histories"],
     "all input contents, sizes and chunkings, input kinds (pipe, file, /dev/null), read patterns of the remote command, and times at which the input ends",
     "One test pipes eight characters into a command that reads everything at once; back-pressure, large input, slow readers and late end-of-file are never exercised.",
     [PROC, UTIL],
     [("client stdin forwarding", PROC), ("pending stdin buffer and deferred close on the server", PROC), ("Pipe::write on the non-blocking pipe", UTIL)],
     [("stdInData", "stdin bytes accepted from the client but not yet written to the command", PROC), ("closeStdIn", "end-of-file received, to be applied once stdInData drains", PROC)],
     ["remote command's stdin"])

prop("C03", "The client's exit status is the remote exit status, and failure is never success",
     "When the remote command exits normally with code N (0 to 255) the client exits with exactly N. "
     "In every other outcome (remote command killed by a signal, not startable, unknown to the server, working directory unusable, server or connection lost at any point before the exit code arrived) the client ends abnormally or with a failure, and never with status 0. "
     "The client never exits with an exit code the remote command did not produce.",
     ["inputs", "crash_points", "fault_sequences"],
     "all exit codes, all terminating signals, and loss of the connection or of the server's handling process after any prefix of the exchange",
     "Tests see the codes 0-3 on clean runs; no test kills the remote command, the server or the connection, and none starts a command that cannot run.",
     [PROC, MAIN],
     [("exit code sent only after normal termination", PROC), ("abort when the socket closes without an exit code", PROC)],
     [], ["client wait status"])

prop("C04", "Arguments arrive verbatim, after the configured executable",
     "The remote command is started with the configured executable and its configured arguments followed by exactly the arguments given to the client, in the same order and byte for byte, including empty arguments, whitespace, quotes, option-like text and very long or very many arguments. "
     "When the client is invoked under a command's own name no argument is interpreted locally, and when it is invoked as `k8psh [options] command args...` everything after the command name is passed on untouched.",
     ["inputs"],
     "all argument vectors, all configured executable lines, both ways of invoking the client",
     "Tests pass at most one one-letter argument.",
     [MAIN, PROC, CONF],
     [("client argument parsing stops at the command name", MAIN), ("COMMAND_ARGUMENT payloads", PROC), ("configured arguments are inserted before received ones", PROC)],
     [], ["remote argv"])

prop("C05", "The remote command's environment is exactly what the configuration grants",
     "The remote command's environment consists of exactly the variables named for that command and its server section, each at most once: required ones take the client's value or else the expanded default, optional ones ('?') take the client's value or else the expanded default or, if that is empty, an earlier configured value or the server's own value, and inherited ones ('=') take the expanded configured value or, if that is empty, the server's own value whatever the client has. "
     "A variable with no value from any of these is absent, default values see the values of variables configured before them, and client values are passed verbatim without expansion. "
     "No other variable of the client or the server ever reaches the remote command.",
     ["inputs", "configurations"],
     "all combinations of variable kinds, defaults, references, duplicates, and client/server environments",
     "Tests set two variables with fixed values; precedence, chaining, duplicates, absence and leakage are not compared against anything.",
     [PROC, CONF, UTIL],
     [("client sends configured non-inherited variables", PROC), ("server computes and de-duplicates the environment", PROC), ("substituteEnvironmentVariables with overrides", UTIL)],
     [], ["remote environ"])

prop("C06", "The working directory maps relative to each side's base directory",
     "If the client runs in a directory at relative path R below its configured base directory, the remote command runs in the directory R below the server's configured base directory, for every R (including the base itself, deep paths and names with unusual characters). "
     "If the client is not inside its base directory, or the corresponding directory cannot be entered on the server, the command is not run anywhere and the client fails; so does a client whose own working directory no longer exists.",
     ["inputs", "configurations"],
     "all pairs of base directories (absolute or relative to the configuration file) and client working directories",
     "Tests only use one base directory that equals the working directory of both sides.",
     [MAIN, PROC, UTIL, CONF],
     [("relativizePath in the client", MAIN), ("WORKING_DIRECTORY payload joined to the base directory", PROC), ("changeWorkingDirectory before exec", PROC)],
     [], ["remote cwd", "client exit"])

prop("C07", "A remote command may stop reading its input without affecting the run",
     "If the remote command closes its standard input, never reads it, or exits while the client still has input to send, its remaining output and its exit code are still delivered exactly and the command is not disturbed; the surplus input is discarded. "
     "While the remote command then goes on, the client does not fail, and neither the client nor the server burns processor time.",
     ["inputs", "histories", "schedules"],
     "all amounts of surplus input, all points at which the remote command stops reading or exits, and all timings of the client's sends around them",
     "One test closes stdin early but the client has only eight bytes to send; surplus data in flight at the moment of close or exit is never exercised.",
     [PROC],
     [("server discards stdin data after close", PROC), ("STDIN close message to the client", PROC), ("orderly close after the exit code", PROC)],
     [], ["client exit status", "client stdout", "client CPU time"])

prop("C08", "Data is relayed promptly in both directions and the exchange never stalls",
     "Whatever the remote command writes becomes readable from the client's output, and whatever is written to the client's input becomes readable by the remote command, while both are still running and without waiting for further data, for end-of-file or for the exit. "
     "Consequently any request/response dialogue between a local program and the remote command makes progress, one stalled stream does not lose data, and a run ends once the remote command has ended and its output is consumed even if the client's input stays open.",
     ["histories", "schedules"],
     "all lockstep dialogues: sequences of writes of any size in either direction, each awaited before the next, with the other streams idle, stalled or closed",
     "Every test reads output files only after the client has exited, so buffering or stalls during the run are invisible to them.",
     [PROC],
     [("client poll loop", PROC), ("server poll loop with 250 ms exit polling", PROC), ("stdout write and flush in the client", PROC)],
     [], ["client stdout/stderr during the run", "remote stdin during the run"])

prop("C09", "When the client goes away the remote command is told to terminate",
     "If the client is killed or its connection closes or is reset before the remote command has finished, at whatever point of the exchange and whatever data is in flight in either direction, the remote command receives the termination signal (SIGTERM) promptly. "
     "A remote command is never sent that signal while its client is still there.",
     ["crash_points", "schedules"],
     "all points at which a client can disappear (any signal, clean close or reset), with any amount of unread output or unsent input pending, for commands that are idle, writing or reading",
     "No test ever kills a client.",
     [PROC],
     [("closed socket is treated as a terminate request", PROC), ("kill(process, SIGTERM)", PROC)],
     [], ["signals received by the remote command"])

prop("C10", "One connection can never harm the server or any other connection",
     "Whatever a peer sends or does on its own connection (arbitrary bytes, truncated or oversized messages, unknown commands, commands that cannot start, silence, disconnects, resets), the server keeps accepting and serving other clients correctly, connections in progress are not disturbed, and the server's installed client executables and PID file stay in place. "
     "When a connection is over it leaves no open connection, zombie or other resource behind in the server.",
     ["inputs", "fault_sequences", "histories"],
     "all byte streams and fault sequences on any number of connections interleaved with well-behaved ones",
     "Tests run four well-formed connections one after another.",
     [MAIN, PROC, SOCK],
     [("process per connection", MAIN), ("cleanup is confined to the server process", MAIN), ("payload parsing errors end only the handler", PROC)],
     [], ["server process", "executable directory", "PID file", "other clients"])

prop("C11", "The server stops exactly when told to, finishing running commands first",
     "A server accepts exactly the configured maximum number of connections if there is one, stops accepting when its timeout elapses (never earlier) or on SIGTERM, SIGINT or SIGHUP, promptly and even while commands are running, then lets every accepted command run to completion undisturbed and exits with status 0. "
     "With the no-wait option it exits at once instead, and the commands already running still complete normally for their clients. "
     "Once it has stopped accepting, later clients are refused rather than left hanging.",
     ["histories", "schedules", "configurations"],
     "all combinations of limit, timeout, signal, wait mode and number and state of running commands at the moment of shutdown",
     "The one server test reaches its limit of four sequential connections; signals, timeouts, waiting and no-wait are never checked.",
     [MAIN],
     [("exitRequested pipe and signal handler", MAIN), ("connection count and timeout in the accept loop", MAIN), ("wait for children", MAIN)],
     [("connectionCount", "accepted connections", MAIN)], ["server exit status and time", "clients"])

prop("C12", "Client executables are created and removed exactly as configured",
     "On start a server (or a container without commands of its own) creates, in the chosen directory, one link to the k8psh binary for every configured command it does not itself provide (for every command with the generate-local option, for none with the disable option), and nothing else. "
     "An existing file is never replaced, changed or removed unless overwriting or disabling was requested for that very command name: without that, the start fails and links made so far are removed (unless links are to be kept). "
     "On exit a server removes exactly the links it made, unless keeping them was requested; a container without commands keeps them and exits with status 0.",
     ["configurations", "histories"],
     "all configurations, server names, option combinations and prior contents of the directory",
     "One test relies on four links existing in the working directory; it never looks at what else is created, removed, kept or overwritten.",
     [MAIN],
     [("link generation loop", MAIN), ("cleanup of created links", MAIN)],
     [("createdExecutables", "links made by this run", MAIN)], ["directory contents"])

prop("C13", "Configuration strings mean what the documentation says",
     "Every string value (unquoted, double-quoted with the documented escape sequences, single-quoted with doubled quotes, or any concatenation of these) denotes exactly the documented sequence of bytes, in every position where a string is allowed. "
     "Conversely every value without NUL can be written in some documented form and reads back identically; comments, blank lines, extra spaces and tabs, and CRLF line ends never change a value.",
     ["inputs"],
     "all byte strings, all ways to quote and split them, all positions (keys, values, host names, options, command names, variables, arguments)",
     "The test configuration has about ten literal strings and no \\x, \\b, \\f, \\r or CRLF case.",
     [CONF],
     [("parseString", CONF), ("parseHexValue", CONF), ("skip/ensure helpers for blanks and comments", CONF)],
     [], ["Configuration::load results"])

prop("C14", "A configuration's settings, sections, ports and commands are read as written",
     "Loading a well-formed configuration yields exactly the settings, server sections and commands written in it: base directory resolved against the file's directory, connect timeout (default 30000), per section the name, options and port (explicit, else previous port plus one, the first being 1120), and per command its name, section, variables (section-wide first) and executable with arguments (defaulting to the command name). "
     "A later definition of the same command replaces an earlier one in the client view and in its own section without affecting other sections, and sections without commands provide none.",
     ["configurations", "inputs"],
     "all well-formed configurations: any number of sections and commands, explicit and implicit ports in any order, variable/option/argument splits, duplicates, layouts",
     "One fixed configuration with two populated sections is compared; port numbering, section-wide variables, option splits and timeouts are not.",
     [CONF],
     [("Configuration::load", CONF), ("getConfigurationValue / parseHost / parseArguments", CONF)],
     [("currentPort", "port given to the next section without one", CONF)], ["Configuration accessors", "listening port"])

prop("C15", "Malformed configurations are rejected, and no input can crash the parser",
     "A configuration with an unknown setting, an unterminated or wrongly escaped string, an incomplete or non-hexadecimal \\x escape, surplus text after a value or section header, an unclosed or nameless section header, a non-numeric or out-of-range port (explicit or by sequential numbering), or an unparsable timeout is rejected with an error, wherever in the file it occurs. "
     "For any byte string whatsoever, loading either yields a configuration or reports an error: it never crashes, hangs or reads outside the input, and the result does not depend on appended blank or comment lines.",
     ["inputs"],
     "all byte strings; all single malformations planted anywhere in a well-formed configuration",
     "Ten fixed bad strings are tried, all short and without a sanitizer.",
     [CONF, UTIL],
     [("LOG_ERROR on malformed input", CONF), ("bounds given by the terminating NUL", CONF)],
     [], ["Configuration::load outcome", "sanitizer reports"])

prop("C16", "Environment references expand exactly once and only where they should",
     "In a string subject to expansion each ${NAME} is replaced by the variable's value (nothing if it has none) and each ${NAME:-default} by its value or else by the literal default, values being taken from the given overrides before the process environment. "
     "Replaced text is never expanded again, text that is not a complete reference is left untouched, and everything outside references is copied unchanged. "
     "At load time expansion applies to unquoted and double-quoted text and never to single-quoted text.",
     ["inputs", "configurations"],
     "all strings with any mix of references, near-references and other text; all environments and override maps",
     "The tests expand two plain references; defaults, overrides, adjacency, malformed references and self-referencing values are not exercised.",
     [UTIL, CONF, PROC],
     [("substituteEnvironmentVariables", UTIL), ("substitution of non-single-quoted runs", CONF)],
     [], ["expanded strings", "values in a loaded configuration"])

prop("C17", "Path handling obeys path algebra",
     "Normalizing a path yields the lexically equivalent path without empty, '.' or resolvable '..' components, is idempotent and keeps absoluteness; leading '..' components of a relative path survive. "
     "Relativizing an absolute path against an absolute parent succeeds exactly when the parent's components are a prefix of the path's components (whole components, ignoring repeated separators and '.'), and joining the result back to the parent denotes the original path. "
     "Base names and parent directories agree with the same decomposition.",
     ["inputs"],
     "all paths, including repeated separators, dots, names that are prefixes of each other and names starting or ending with dots",
     "About twenty fixed paths are compared.",
     [UTIL],
     [("normalizePath", UTIL), ("relativizePath", UTIL), ("getBasename / getParentDirectory", UTIL)],
     [], ["Utilities path functions"])

prop("C18", "Server options act as documented, and the command line wins",
     "Every documented server option has its documented effect in each of its spellings (short, long, long with '='), whether it is given on the command line or in the server's configuration section, and where both give a value the command line's applies. "
     "An unknown option is an error unless ignoring invalid arguments was requested, in which case it is skipped and changes nothing; --config overrides K8PSH_CONFIG, and --name overrides K8PSH_NAME, which overrides the host name.",
     ["configurations", "inputs"],
     "all combinations, spellings and orders of options split between command line and section",
     "Tests give one fixed option line and one command-line option; precedence is never observed.",
     [MAIN],
     [("parseOption", MAIN), ("deferred arguments: section first, then command line", MAIN), ("getConfiguration / name lookup", MAIN)],
     [], ["served commands", "links", "connection limit", "exit status"])

prop("C19", "The outcome does not depend on how the transport splits the data",
     "For one and the same exchange, the remote command's arguments, environment, input and the client's output and exit status are identical however the connection, pipes and terminal deliver the data: in pieces of any size, with any delays, with partial reads and writes and interrupted system calls at any point. "
     "No message boundary, buffer boundary or read size is significant.",
     ["schedules", "fault_sequences"],
     "all segmentations of both directions of the connection and all patterns of short reads, short writes and interrupted calls on both sides",
     "On loopback every test message arrives in one piece, so reassembly code is never exercised at a split.",
     [PROC, SOCK, UTIL],
     [("BufferedReceiveSocket::read / readString", PROC), ("Socket::write loop", SOCK), ("Pipe::read / Pipe::write retry", UTIL)],
     [("_readOffset/_end", "window of buffered socket data", PROC)], ["remote observations", "client output and status"])

prop("C20", "The client obeys the server's message stream and nothing else",
     "For any sequence of server messages the client's standard output and error are exactly the concatenation of the respective payloads received, closed when told so, and the client exits with the announced exit code as soon as it arrives. "
     "If the stream ends before an exit code, contains an unknown message or sends data on a stream it already closed, the client ends abnormally, having output only data that was received. "
     "What the client itself sends is a well-formed message stream: directory, arguments, granted variables, start, then input data with a final end marker.",
     ["inputs", "fault_sequences", "histories"],
     "all message sequences, orders, sizes (empty to megabytes), truncations and corruptions from the server side",
     "The tests only ever connect the client to the same build's server running trivial commands.",
     [PROC],
     [("client message switch", PROC), ("outputStdStreamData", PROC), ("payload encoding", PROC)],
     [], ["client stdout/stderr/status", "bytes sent by the client"])

prop("C21", "The client waits for its server as long as configured",
     "A client whose server is not yet listening keeps trying and succeeds if the server starts listening before the connect timeout elapses, and runs the command exactly once. "
     "If no server appears it fails after the timeout, never earlier and not much later; a timeout of zero means a single attempt and a negative timeout means to keep trying forever, and any non-negative value, however large, is honoured.",
     ["schedules", "configurations"],
     "all timeouts (zero, short, default, huge, negative) and all server start times relative to the client's",
     "Tests start the server 250 ms before the client and never let a connection fail.",
     [PROC, CONF, SOCK],
     [("connect retry loop with back-off", PROC), ("connectTimeoutMs", CONF)],
     [], ["client duration and status"])

prop("C22", "--install leaves an exact, executable copy, whatever was there before",
     "After a successful `--install FILE` FILE is an executable whose content is identical to the running k8psh binary, whether FILE did not exist, existed with shorter, longer or other content or without execute permission, was already an installed copy or link, or lies on another filesystem. "
     "If it cannot be installed the command fails; the source binary is never altered.",
     ["configurations", "histories"],
     "all prior states of the destination, repeated installs, same or different filesystem, all spellings of the option",
     "No test runs --install.",
     [MAIN],
     [("hard link, else copy", MAIN)],
     [], ["destination file", "source file", "exit status"])

prop("C23", "A server exposes only its own commands, and only on the loopback port",
     "A server listens on exactly one socket, on the loopback address and the port its section defines. "
     "The only programs it ever starts are the configured executables of commands listed in its own section, whatever name, arguments, variables or raw messages a client sends; a request for anything else (including commands of other sections, paths, empty or case-changed names) is refused without starting anything.",
     ["inputs", "configurations"],
     "all configurations and server names, all requested command names and message sequences",
     "Tests only request commands that exist on the one configured server and never look at the listening address.",
     [PROC, MAIN, SOCK, CONF],
     [("command lookup in the section's map", PROC), ("bind to 127.0.0.1", SOCK), ("section lookup by name", CONF)],
     [], ["listening sockets", "started processes"])

prop("C24", "Concurrent commands are independent of each other",
     "Any number of commands may run at the same time through one server: each gets exactly its own client's input, arguments and variables, and its output and exit code reach exactly that client. "
     "Completion, failure, slowness or silence of one never delays, ends or otherwise affects another, and a command inherits none of the server's or other commands' descriptors beyond its own three standard streams.",
     ["schedules", "histories"],
     "all interleavings of starts, transfers, closes, exits and failures over several simultaneous connections",
     "Tests never have two connections open at the same time.",
     [MAIN, PROC],
     [("fork per connection", MAIN), ("descriptor closing after fork", MAIN), ("per-connection pipes", PROC)],
     [], ["each client's output and status", "open descriptors of the remote command"])

prop("C25", "Closed standard streams do not corrupt a run",
     "A client or server started with any of its standard input, output or error closed behaves as if that stream were empty or discarded: the other streams, the arguments, the exit code and the connection are unaffected, and no protocol or log data ever appears on, or is read from, a wrong descriptor.",
     ["configurations"],
     "all subsets of closed standard descriptors on the client and on the server, with all exchanges",
     "Tests always run with the three standard streams open.",
     [MAIN, PROC],
     [("standard descriptors are reserved at start", MAIN), ("descriptor remapping before exec", PROC)],
     [], ["client streams and status", "remote streams"])

prop("C26", "Background mode detaches and leaves no trace after exit",
     "With the background option the starting process exits with status 0 and the server goes on in its own session with standard streams on the null device, serving as in the foreground; the PID file then contains that server's process id. "
     "An existing PID file is never overwritten (the server does not start). "
     "When the background server exits it removes its PID file and its client executables, also when these were given as relative paths.",
     ["configurations", "histories"],
     "all combinations of relative and absolute directories and PID files, pre-existing PID files, ways to stop, and exchanges served in between",
     "The daemon check only starts a server, waits a second and kills it with SIGKILL.",
     [MAIN],
     [("fork/setsid/chdir/dup2 block", MAIN), ("PID file created exclusively", MAIN), ("cleanup", MAIN)],
     [], ["PID file", "links", "session and descriptors of the server", "exit status"])

prop("C27", "Debug output appears exactly for the selected modules",
     "Debug messages are produced for a source module if and only if K8PSH_DEBUG lists that module's name or 'all': the list is separated by commas or semicolons, surrounding blanks and letter case are ignored, and only whole entries match. "
     "With nothing selected no debug text appears anywhere. Each message starts with the time (UTC) it was written.",
     ["inputs", "configurations"],
     "all K8PSH_DEBUG values, including entries that contain, extend or repeat module names",
     "Tests set one list and never look at what was logged.",
     [UTIL],
     [("listContainsCaseInsensitive", UTIL), ("Logger::shouldLogDebug", UTIL)],
     [], ["debug lines on stdout"])

prop("C28", "A remote command starts in the process context of its server",
     "Every remote command, the first as well as any later one, starts with the process attributes the server itself was started with: blocked and ignored signals, resource limits, scheduling, user and group ids, timers and, in the foreground, the file creation mask "
     "(background mode ignores SIGHUP and clears that mask; SIGCHLD always has its default action). Its standard streams are in blocking mode. "
     "Nothing the server sets up for itself (ignored or blocked signals, handlers, timers), and nothing that happened on earlier connections, shows in a command.",
     ["configurations", "histories"],
     "all process contexts a server may be started from, all server modes, all histories of earlier commands and failing connections",
     "Tests start servers from one context only and never look at the signal state or limits of a remote command.",
     [PROC, MAIN],
     [("signal handling in the child process and before exec", PROC), ("signal mask and handlers of the server", MAIN), ("background mode", MAIN)],
     [], ["/proc/self/status and limits of the remote command", "flags of its streams"])

prop("C29", "A server can be restarted at once, and a second one on its port changes nothing",
     "As soon as a server no longer listens, however it stopped (told to, limit, timeout, killed) and whatever became of its connections (just closed, still open, still running commands), another server can be started on the same port and serves. "
     "While a server serves, any further server started on its port, alone or many at once and whatever its options, fails with a status other than 0, and neither it nor an earlier server that exits later changes or removes the serving server's client executables or PID file. Commands of an earlier server go on undisturbed.",
     ["histories", "schedules"],
     "all sequences and overlaps of server starts, stops and kills on one port, with all states of their connections",
     "Tests use a server once and stop it when it is idle.",
     [MAIN, SOCK],
     [("listening socket and its options", SOCK), ("listener is opened before client executables are touched; cleanup on exit", MAIN)],
     [], ["exit status", "links and PID file", "service"])

prop("C30", "A client leaves no trace beyond its output",
     "A client only reads its standard input and writes the command's output at the current position of the files its standard output and error are (their end in append mode), also when these are shared with each other, its caller or other clients. "
     "Once its command has closed its standard input, it stops reading, and the rest of its input stays for its caller. "
     "However it ends, it leaves the flags and everything else of these open files, terminal settings, other inherited descriptors and their contents, all files and directories, and its session and process group unchanged; it needs no writable directory, and no process remains after it and its command have ended.",
     ["configurations", "histories"],
     "all kinds of standard streams and ways to share them, all ways a run can end, several clients in sequence or at once",
     "Tests give every client pipes or files of its own and look at the output only.",
     [PROC, MAIN],
     [("writes to stdout and stderr, reads from stdin", PROC), ("client side without files or further processes", MAIN)],
     [], ["shared files", "flags of shared open files", "terminal settings", "files and processes"])

prop("C31", "The cost of a run follows the data it moves, and waiting costs nothing",
     "Whenever a client or server only waits (for input, output, a slow or stopped peer, its command, connections, another server's start, the end of running commands), in whatever state its streams and connections are, it uses practically no processor time and does not wake up at a high rate. "
     "The processor time of a transfer grows no more than in proportion to its data, also for input that had to wait for its command, and that of reading a configuration, expanding references and handling paths in proportion to their length, and that of starting a command in proportion to its arguments and configured variables; a connection costs the same however many there have been before. "
     "Output that is not read and input that cannot be sent on wait where they are: memory does not grow with their amount, nor with the number of connections.",
     ["states of waiting", "amounts of data", "numbers of connections", "texts"],
     "all combinations of waiting states; transfers, histories and texts of size n against multiples of n",
     "Tests look at results of short runs; a process that burns processor time, or one that becomes slow or big with much data, gives the same results.",
     [PROC, MAIN, CONF],
     [("poll sets and timeouts of client and server", PROC), ("stdInData / stdInOffset (input that waits), BufferedSendSocket", PROC), ("main loop of the server", MAIN), ("parsing", CONF)],
     [], ["processor time", "wake-ups", "memory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
