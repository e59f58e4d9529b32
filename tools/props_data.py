prop("C01", "No command starts before the safety policy or the user allowed it",
     "Nothing of a command line typed or passed to the shell is started (no child process, subshell or command substitution) before the safety policy allowed the whole line or the user answered yes to its confirmation. When the policy denies the line, or the user refuses or the prompt fails, nothing of it runs and the line's status says so.",
     ["inputs", "programs", "fault_sequences"], "every command line, every safety level, every answer to or failure of the confirmation",
     "Tests drive the policy on a few sample lines in isolation; they never check on which evaluator paths a process can start before the verdict.",
     ["dsh/src/shell/eval.rs", "dsh/src/shell/parse.rs", "dsh/src/process/job.rs", "dsh/src/safety/mod.rs"],
     [("verdict and confirmation before launch", "dsh/src/shell/eval.rs"), ("substitutions and subshells checked before they run", "dsh/src/shell/parse.rs")],
     "path-sensitive typestate over MIR (verdict/consent before launch)",
     "Walks every MIR path from the functions holding launch sites up to the line evaluator. Decides ordering, not what the policy says about a command (C02).")
prop("C02", "The safety verdict covers every command of a line with its real arguments",
     "At the normal and strict levels a line is allowed without asking only if each command in it (every pipeline stage of every job) was examined with all of its actual arguments and found harmless or is on the user's execute allow list. Commands on the always-warn list (dd, mkfs, reboot and the like) require a confirmation, and the option checks of rm, git, cp, curl and the others look at every argument.",
     ["inputs", "programs", "configurations"], "every job list, pipeline, argument list, safety level and allow list",
     "The tests try single dangerous commands; a pipeline stage, a later job or an option in an unusual position is not sampled.",
     ["dsh/src/safety/mod.rs", "dsh/src/process/job.rs"],
     [("verdict over all stages", "dsh/src/safety/mod.rs")],
     "path-sensitive property simulation and provenance over MIR (universal discharge of each stage)",
     "Decides that Allowed is returned only when every stage was looked at (list test, warn set, checker on the real argument vector) and that each checker's loop covers all arguments; what a checker should consider dangerous is taken from the documented command list.")
prop("C03", "MCP tools run only when allowed or approved",
     "A tool of an MCP server is invoked only after the safety policy allowed that call or the user answered yes (once or always) to its confirmation; each approval covers one call. A refused, denied or failed confirmation never runs the tool.",
     ["inputs", "programs", "histories", "fault_sequences"], "every tool call the model can make, every safety level, every answer or failure of the confirmation, in every order",
     "The tests check the verdict function on a few calls; they do not cover the paths between verdict, prompt and the tool call, nor prompt failures.",
     ["dsh-builtin/src/chatgpt/mcp/mod.rs", "dsh-builtin/src/chatgpt.rs", "dsh/src/safety/mod.rs"],
     [("verdict and confirmation before the MCP call", "dsh-builtin/src/chatgpt.rs")],
     "path-sensitive typestate over MIR (consent before sink)",
     "Every MIR path of the functions reaching the MCP transport is walked with the gates' results tracked; decides the ordering, not the wording of the prompt. Trusts the resolved call graph (trait calls expanded to all workspace impls).")
prop("C04", "AI tools change files or run commands only with the user's consent",
     "An AI tool writes, creates or removes a file or directory, or starts a command, only after the user confirmed that action; the execute tool may skip the question only for a command that matches an entry of the execute allow list and contains no shell operators. A refusal or failed prompt leaves the file system untouched and starts nothing.",
     ["inputs", "programs", "fault_sequences", "configurations"], "every argument object the model can send, every allow list, every answer or failure of the prompt",
     "The tests use a proxy that always says yes or no for a few calls; they do not cover every path from a tool's entry to a mutation.",
     ["dsh-builtin/src/chatgpt/tool/mod.rs", "dsh-builtin/src/chatgpt/tool/edit.rs", "dsh-builtin/src/chatgpt/tool/execute.rs"],
     [("confirmation before write", "dsh-builtin/src/chatgpt/tool/edit.rs"), ("allow list and operator screen", "dsh-builtin/src/chatgpt/tool/execute.rs")],
     "path-sensitive typestate over MIR (consent before mutation); structural check of the allow-list matcher",
     "All mutation and spawn calls reachable from the tool functions are enumerated by callee; each path to one needs consent or an allow-list match after the screening of shell metacharacters.")
prop("C05", "AI file tools stay inside the workspace and away from ignored files",
     "A path chosen by the model is opened, listed, searched or written only if, after resolving symlinks and .., it lies inside the workspace (or, for reading, the skills directories), and reading tools refuse what .gitignore excludes. A path that cannot be resolved to such a location is refused.",
     ["inputs", "programs", "configurations"], "every path string, every symlink layout, every .gitignore",
     "The tests sample ../, absolute paths and one symlink; they cannot cover every tool x access call, nor dangling or intermediate links.",
     ["dsh-builtin/src/chatgpt/tool/mod.rs", "dsh-builtin/src/chatgpt/tool/read.rs", "dsh-builtin/src/chatgpt/tool/ls.rs", "dsh-builtin/src/chatgpt/tool/search.rs", "dsh-builtin/src/chatgpt/tool/edit.rs"],
     [("path resolution and containment", "dsh-builtin/src/chatgpt/tool/mod.rs")],
     "taint/provenance analysis plus path-sensitive typestate over MIR (contain before access)",
     "Every file-system access whose path derives from tool arguments must use the resolver's result; the resolver's Ok paths must have passed the prefix test of a canonical path. Races between check and use are out of scope.")
prop("C06", "Prompted commands run only after the user's yes",
     "safe-run executes the command, and releases output it captured, only after the user confirmed; wherever a builtin or the shell asks a yes/no question before starting or killing something, nothing is started or killed unless the answer was affirmative. End of input or a read error is never taken as agreement.",
     ["inputs", "histories", "fault_sequences"], "every answer, including end of input and terminal errors, at every prompt",
     "Prompts need a terminal, so the tests hardly reach them.",
     ["dsh-builtin/src/safe_run.rs", "dsh-builtin/src/notebook_play.rs", "dsh-builtin/src/glog.rs", "dsh/src/command_palette/actions/port_check.rs"],
     [("confirm before dispatch", "dsh-builtin/src/safe_run.rs"), ("yes/no prompts", "dsh/src/command_palette/actions/port_check.rs")],
     "path-sensitive typestate over MIR (answer known affirmative before sink)",
     "Questions are recognised as functions reading a line or a key after which a process is started, a signal sent or a hook run.")
prop("C17", "The terminal is given back as it was found",
     "Whatever leaves the line editor's terminal mode - running a command, a `|>` or `|:` job, a substitution, a selection list, a dialog, a full-screen builtin - puts it back on every way out, failures and cancellation included: raw mode is on again at the prompt after it was switched off, off again after a dialog or program that switched it on, unchanged where the shell is not interactive; the alternate screen is left once entered; and a terminal handed to a job's process group is taken back by the shell when the wait for it ends, however it ends.",
     ["fault_sequences", "histories"], "every path through every function that switches the terminal, including every error it can return",
     "The tests have no terminal, and none of the failing paths is driven.",
     ["dsh/src/shell/eval.rs", "dsh/src/repl/mod.rs", "dsh/src/repl/confirmation.rs", "dsh/src/repl/key_handlers/auxiliary.rs", "dsh/src/process/job_wait.rs", "dsh/src/process/job_pty.rs", "dsh/src/ai_features/ui.rs", "dsh-builtin/src/procs.rs"],
     [("commands", "dsh/src/shell/eval.rs"), ("foreground", "dsh/src/process/job_wait.rs"), ("guards", "dsh/src/process/job_pty.rs")],
     "typestate by path simulation over MIR: raw mode, alternate screen, foreground process group",
     "A switch the terminal refuses counts as done. Panics are not followed, and neither is the state a third-party selector (skim) leaves behind.")
prop("C18", "The user's commands run in the shell's environment",
     "Every program the user runs - typed at the prompt, piped with `|>` or `|!`, run by a builtin such as out or safe-run, or by the Lisp command function - gets exactly the shell's child environment: the process-visible variables, overridden by every exported shell variable that has a value, with TERM never missing. A shell variable that is not exported never reaches a program, a variable removed from the shell's environment is not inherited from the process the shell was started in, and the shell never changes its own process environment except to put a snapshot back.",
     ["inputs", "programs", "histories"], "every set of exported, unexported and inherited variables, every way of running a program",
     "The tests look at one map with one exported variable; which launches use that map, and what else they pass on, no test covers.",
     ["dsh/src/environment/variables.rs", "dsh/src/process/process.rs", "dsh/src/proxy/external.rs", "dsh/src/proxy/mod.rs", "dsh/src/lisp/builtin.rs", "dsh/src/repl/mod.rs"],
     [("child environment", "dsh/src/environment/variables.rs"), ("exec", "dsh/src/process/process.rs")],
     "path simulation of every Command construction and value provenance of every exec environment over MIR",
     "Programs the shell runs for itself (completion sources, prompt modules, palette actions, the AI tools and MCP servers) are not the user's commands here.")
prop("C27", "The AI service's key is sent only to its https endpoint and never shown",
     "The key of the AI service goes into the authorization header of requests to the configured endpoint and nowhere else: not into output, log records, error texts, files, commands, a request's body or its address; dsh doctor shows at most its last four characters. The endpoint is https, unless AI_CHAT_ALLOW_INSECURE_HTTP opts in to http; an address that merely contains https elsewhere is refused. The checks of the server's certificate stay on.",
     ["inputs"], "every key, base address and setting, and every outcome of a request, errors included",
     "The tests parse a few base addresses; where the key flows on the paths that build, send and report on a request is not tested.",
     ["dsh-openai/src/config.rs", "dsh-openai/src/client.rs", "dsh-builtin/src/doctor.rs", "dsh-builtin/src/chatgpt.rs"],
     [("configuration and endpoint", "dsh-openai/src/config.rs"), ("requests", "dsh-openai/src/client.rs"), ("doctor", "dsh-builtin/src/doctor.rs")],
     "taint and provenance path simulation over every function that reads the key or sets the endpoint",
     "What http libraries do with the header and with redirects is taken as given. Programs that dsh starts inherit its environment, the key's variable included.")
prop("C30", "Only an explicit yes is a yes",
     "The shell's confirmation dialogs and the AI tools' prompts report agreement only for an explicit y/yes (or the documented 'always' key). Any other key or text, an empty answer, end of input, Esc, Ctrl-C or a read failure reports refusal or an error.",
     ["inputs", "fault_sequences"], "every key event and every line, end of input and error at each prompt",
     "Key reading needs a terminal; no test drives the dialogs over all keys.",
     ["dsh/src/proxy/mod.rs", "dsh/src/safety/mod.rs", "dsh/src/shell/eval.rs", "dsh/src/repl/mod.rs"],
     [("confirmation dialogs", "dsh/src/repl/confirmation.rs")],
     "path-sensitive value analysis over MIR (yes-values constructed only under y-key facts)",
     "Walks every path of the dialog functions and requires each path that returns an agreement to carry the fact that the key/line equals y/Y/yes (or a/A for always).")
prop("C07", "Command history is written only through the secret filter",
     "Every command that reaches the command history (typed, learned from an accepted suggestion, imported, or updated with its outcome) first passes the secret filter. In skip mode a command recognised as sensitive is not stored at all; in redact mode only its redacted form is stored.",
     ["inputs", "programs", "configurations", "histories"], "every command text, every history mode, every way a command gets into the history",
     "The tests call the filter on sample commands; none checks that all writers of the history go through it.",
     ["dsh/src/secrets.rs", "dsh/src/shell/eval.rs", "dsh/src/shell/mod.rs", "dsh/src/repl/mod.rs", "dsh/src/history_import.rs", "dsh/src/history/command_history.rs"],
     [("filter before the history write", "dsh/src/shell/eval.rs"), ("mode decision", "dsh/src/secrets.rs")],
     "interprocedural value provenance over MIR (stored text comes from the filter) and path simulation of the filter",
     "All call sites of the history's storing methods are enumerated; the text argument is traced back through locals, collections, closures and fields. Whether the patterns recognise a given secret is not judged.")
prop("C08", "Redaction replaces everything the sensitivity test recognises",
     "Whatever makes a command count as sensitive (a sensitive variable assignment, a secret option, a bearer header, a secret URL parameter, a user pattern) is also replaced, in every occurrence, by the redaction. A replacement keeps at most the non-secret prefix; text is kept whole only where its variable name was tested and found harmless.",
     ["inputs", "configurations"], "every command text with any number of secrets, every user pattern and keyword",
     "The tests redact a handful of sample commands, one secret at a time.",
     ["dsh/src/secrets.rs"], [("is_sensitive_command and redact_command use the same patterns", "dsh/src/secrets.rs")],
     "provenance of pattern sources (detector set included in replacer set) and path simulation of replacement closures over MIR",
     "Set inclusion of pattern sources and per-path group use; the regular expressions themselves are not interpreted.")
prop("C09", "Text never becomes Lisp source",
     "Only programs the user wrote are evaluated as Lisp: the configuration file, the lisp command's argument, the -c/--lisp option, struct-pipe expressions and configured function names. Command lines, directory names, output, tokens under the cursor and other data reach Lisp code only as values or symbols, never spliced into the source that is parsed.",
     ["inputs", "programs", "configurations"], "every command line, path, hook argument and completion token",
     "The tests run hooks and symbols with harmless words; none uses quotes or parentheses in data.",
     ["dsh/src/lisp/mod.rs", "dsh/src/lisp/parser.rs", "dsh/src/shell/hooks.rs", "dsh/src/repl/macro_utils.rs"],
     [("parser entry points", "dsh/src/lisp/mod.rs"), ("hooks", "dsh/src/shell/hooks.rs")],
     "interprocedural value provenance over MIR (source text handed to the Lisp parser)",
     "Every call of the parser is enumerated; its text is traced to whole programs or to an assembly whose pieces must be constants, numbers or the configuration file.")
prop("C10", "Data never becomes shell code",
     "When the shell assembles a command line or script for a shell (sh -c and the like, or its own evaluator), file names, task names, bookmarked words, completion tokens and other data enter it only quoted, or beside it as arguments or environment variables. No name or word with quotes, spaces, $ or ; can add a command or change another word.",
     ["inputs", "programs"], "every file name, task name, token under the cursor and argument",
     "The tests use plain names; none contains a quote, a space or a shell operator.",
     ["dsh/src/completion/dynamic.rs", "dsh-builtin/src/task.rs", "dsh-builtin/src/safe_run.rs", "dsh-builtin/src/trigger.rs", "dsh-builtin/src/include.rs"],
     [("completion scripts", "dsh/src/completion/dynamic.rs"), ("task command lines", "dsh-builtin/src/task.rs")],
     "interprocedural value provenance over MIR (text handed to a shell), with quoters checked as sanitisers",
     "Every argument of a spawned shell after its -c and every text given to the shell's evaluator is traced; an assembled text may hold constants, whole programs and the results of functions verified to quote.")
prop("C11", "Text is cut only between characters",
     "Previews, truncations, tokens and completions cut text only at character boundaries: no command line, file name, output, candidate or AI text containing multibyte characters makes the shell or a builtin panic because a string was sliced inside a character.",
     ["inputs"], "every Unicode text at every place a string is sliced, truncated, split or edited by offset",
     "The tests use ASCII almost everywhere; the limits lie thousands of bytes into the text.",
     ["dsh/src/input/editor.rs", "dsh/src/completion/parser.rs", "dsh/src/ai_features/analysis.rs", "dsh/src/safety/mod.rs", "dsh-builtin/src/safe_run.rs", "dsh/src/lisp/parser.rs"],
     [("truncation of AI input", "dsh/src/safety/mod.rs"), ("line editor", "dsh/src/input/editor.rs")],
     "value provenance over MIR (unit of every byte offset used to cut text)",
     "Every slicing, truncating, draining or inserting call on strings is enumerated and its offset traced to lengths, searches and character-boundary functions; sizes, character counts, columns and counters are refused. The arithmetic between byte positions is not evaluated.")
prop("C12", "Too few words, or a zero, never take the shell down",
     "No command line, Lisp call or configuration line takes the shell down by having too few words. A builtin, a Lisp function or a parser that takes the n-th word of its arguments (or of a line it split) by position does so only where that word is known to be there; an option that lacks its value, a missing argument or a malformed line is reported or skipped. No division or remainder is done by a divisor that can be zero, the Lisp / and truncate included.",
     ["inputs", "programs", "configurations"], "every number of arguments of every builtin, handler and Lisp function, every line of a file the shell reads, every divisor",
     "The tests call each command with the arguments it wants and a few wrong ones; the absent word and the zero are exactly what is not sampled.",
     ["dsh-builtin/src/glog.rs", "dsh-builtin/src/project.rs", "dsh/src/lisp/builtin.rs", "dsh/src/lisp/default_environment.rs", "dsh/src/proxy/builtin/var.rs", "dsh/src/direnv.rs"],
     [("builtin commands", "dsh-builtin/src/lib.rs"), ("Lisp functions", "dsh/src/lisp/builtin.rs")],
     "difference-bound dataflow analysis of lengths and indexes over MIR, with interprocedural summaries",
     "Assumes that a builtin's argument list starts with its name. Positions computed outside commands and Lisp (editor cursor, completion), cuts inside a string and integer overflow are not judged.")
prop("C13", "The status of a command decides what runs next",
     "A command after && is started only if the last command that ran succeeded, one after || only if it failed, and one after ; always; a command that was skipped leaves the status as it was, and a command that is stopped ends the line. The result of a line is the status of the last command that ran, and the shell itself, given -c or a script on its standard input, exits with the status of the last line (with a failure if that line could not be run). The status of a command is the one its process or builtin reported; a command killed by a signal, or one whose end could not be awaited, never counts as a success.",
     ["inputs", "programs", "fault_sequences", "histories"], "every list of commands, every status, every way a process can end",
     "The tests parse operators and run a few commands; which command runs after which outcome is decided in the evaluation loop no test drives, and a killed child needs a fault.",
     ["dsh/src/shell/eval.rs", "dsh/src/process/wait.rs", "dsh/src/process/job_wait.rs", "dsh/src/process/builtin.rs", "dsh/src/process/fork.rs", "dsh/src/lib.rs"],
     [("list loop", "dsh/src/shell/eval.rs"), ("states from waitpid", "dsh/src/process/job_wait.rs"), ("exit code", "dsh/src/lib.rs")],
     "path simulation over MIR (abstract operators, outcomes and statuses)",
     "The list loop is walked with every operator and every outcome of starting a command; each state built from waitpid's answer or a builtin's is compared with what was answered. Which process of a pipeline gives the job its state is not judged.")
prop("C14", "A redirection sends what it says to the file it names",
     "Each redirection of a command is opened before the command starts and belongs to that command alone: < opens for reading, > creates and truncates, >> creates and appends and never truncates; > and >> carry the output, 2> and 2>> the errors, &> and &>> both. A command whose redirection cannot be opened does not start. The child's standard input, output and error are exactly the descriptors prepared for it, none closed before it is installed, and after a command the shell's own descriptors are as before.",
     ["inputs", "programs", "fault_sequences", "histories"], "every combination of redirections, pipes and lists, and every failure to open a file",
     "The tests parse redirections and run one or two of them; the combinations, the failures and what stays behind for the next command of a list are not sampled.",
     ["dsh/src/process/redirect.rs", "dsh/src/process/job_process.rs", "dsh/src/process/job.rs", "dsh/src/process/process.rs", "dsh/src/shell/parse.rs"],
     [("redirections are opened", "dsh/src/process/redirect.rs"), ("descriptors in the child", "dsh/src/process/process.rs"), ("kinds", "dsh/src/shell/parse.rs")],
     "path simulation and last-test dataflow over MIR",
     "Grammar rule to kind, kind to open flags, file to descriptor, descriptor to the child, and what the context holds after a job are each decided on every path. What the kernel does with the flags, and the grammar's own text, are not judged.")
prop("C16", "A forked child becomes its command or ends",
     "After a fork, the child never comes back into the shell: every way through it ends in the execution of its program or in an exit, and a program that cannot be executed ends with a failure. Before it executes an external program, the child takes none of the shell's locks (another thread may have held them at the fork), and a program started by an interactive shell has every signal the shell ignores or handles for itself, and always SIGPIPE, back at its default.",
     ["schedules", "fault_sequences", "programs"], "every command, every failure between fork and exec, every moment another thread may hold a lock at the fork",
     "The tests run in one process and never fail between fork and exec; a lock held at the fork is a matter of scheduling.",
     ["dsh/src/process/fork.rs", "dsh/src/process/process.rs", "dsh/src/shell/eval.rs", "dsh/src/shell/mod.rs"],
     [("fork", "dsh/src/process/fork.rs"), ("exec", "dsh/src/process/process.rs"), ("subshell", "dsh/src/shell/eval.rs")],
     "path simulation over MIR from each fork to the end of the child",
     "Every path of the child is walked with the locks taken, the signals reset and the way it ends. Locks inside libraries (the allocator, logging) are not judged, nor is a panic in the child.")
prop("C24", "The shell never waits for a lock it holds itself",
     "No lock of the shell (and no borrow of its Lisp engine or Lisp state) is asked for while the one that asks already holds it in a way that excludes it, whichever functions lie between, Lisp code and hooks run by the shell included. Two locks are never taken in opposite orders by code that could then wait for each other, and no such lock stays held while a task is suspended.",
     ["schedules", "programs", "inputs"], "every path, every call chain under a held lock, every interleaving of the shell's threads and tasks",
     "A self-deadlock needs the one path on which the inner function takes the lock again, and opposite orders need two threads at the right moment; the tests meet neither.",
     ["dsh/src/shell/hooks.rs", "dsh/src/environment/mod.rs", "dsh/src/secrets.rs", "dsh/src/completion/dynamic.rs", "dsh/src/completion/selection.rs", "dsh/src/lisp/mod.rs"],
     [("environment lock", "dsh/src/environment/mod.rs"), ("hooks under a lock", "dsh/src/shell/hooks.rs"), ("Lisp functions on the environment", "dsh/src/lisp/builtin.rs")],
     "lock-set dataflow and lock-order analysis over MIR, with transitive acquisitions through the resolved call graph",
     "Locks are told apart by the structure they guard or the field they live in; for structures that link to others of their kind (Lisp scopes, list cells) only a second lock through the same reference in one function is judged. Two readers are not judged, nor waits other than for locks.")
prop("C21", "serve hands out only what lies in the served directory",
     "The HTTP server of the serve command opens a file or lists a directory only if it is the served directory itself or its canonical path lies in the canonical served directory; a link, an index page or an encoded path that leads out of it is refused. Text that comes from names, paths or requests goes into an HTML page only with & < > \" and ' escaped.",
     ["inputs", "programs"], "every request path, every tree of links below the served directory, every file name",
     "The tests ask for a few paths with .. in them; links, index pages and names with markup are not among them, and the handlers themselves are not tested.",
     ["dsh-builtin/src/serve/handlers.rs", "dsh-builtin/src/serve/scanner.rs", "dsh-builtin/src/serve/server.rs"],
     [("containment test", "dsh-builtin/src/serve/handlers.rs"), ("escaping", "dsh-builtin/src/serve/scanner.rs")],
     "path simulation over MIR (canonical containment before each open) and text provenance into HTML",
     "Walks every path of the handlers from the router's closures on. A change of the tree between test and open is not judged, nor are response headers.")
prop("C19", "A config.lisp that fails to load changes nothing",
     "When the evaluation of config.lisp fails, at whatever point, everything its Lisp code could have changed in the shell is as it was before loading began: aliases, abbreviations, registered completions, search paths and command lookup, shell variables, exported settings, directory-environment roots, excluded directories, input preferences, safety level, the AI execute allowlist, configured MCP servers and their status, secret patterns, keywords, session secrets and history mode, registered palette actions and the global Lisp definitions. What the loader itself changes for the duration of the load is put back when the file loads too.",
     ["inputs", "fault_sequences"], "every configuration file, failing at any point after any sequence of definitions",
     "The tests fail one or two short files after a handful of definitions and look at the settings they changed; each setting Lisp can reach needs its own line in the rollback.",
     ["dsh/src/lisp/mod.rs", "dsh/src/lisp/builtin.rs", "dsh/src/lisp/interpreter.rs", "dsh/src/environment/mod.rs", "dsh/src/secrets.rs", "dsh-builtin/src/chatgpt/mcp/mod.rs"],
     [("loading and rollback", "dsh/src/lisp/mod.rs"), ("functions Lisp code may call", "dsh/src/lisp/builtin.rs")],
     "effect analysis over the call graph from the Lisp interpreter, path simulation of the loader with value provenance",
     "Assignments, mutable borrows and write locks of shell-wide fields reachable from the interpreter are enumerated from MIR on every run. Not judged: commands a configuration runs (sh), caches of completions and prompts, files, and values a Lisp program changes in place inside a hash map.")
prop("C20", "What the databases store can be read back, and a batch is stored whole or not",
     "No text of the user becomes part of an SQL statement: statements are fixed and take values as parameters; every statement fits the schema the shell creates and is given as many values as it takes. Whatever is written to a column can be read by every part of the shell that reads it: no stored row is refused for the type of a value. Several rows are written in one transaction, which is committed only if all of its statements succeeded, is committed on every path that reports success, and otherwise leaves nothing behind; a failure inside it is reported; a database file is made readable by its owner alone before it is used.",
     ["inputs", "histories", "fault_sequences", "crash_points"], "every text stored, every sequence of writes and restarts, a failure of any statement of a batch",
     "The tests store a few rows of one kind and read them back in the same process; a value of another type, a failing statement or a crash in a batch is not among them.",
     ["dsh/src/db.rs", "dsh/src/history/command_history.rs", "dsh/src/history/frecency_history.rs", "dsh/src/snippet.rs", "dsh/src/proxy/mod.rs"],
     [("schema and file mode", "dsh/src/db.rs"), ("batches", "dsh/src/history/command_history.rs"), ("snippets", "dsh/src/snippet.rs")],
     "SQL compiled against the extracted schema, whole-program column typing from MIR, path simulation of transactions",
     "SQL texts, bound types, columns read and the order of statements are taken from MIR on every run. What SQLite does with them is taken as documented; databases written by other versions and the ranking of entries are not judged.")

prop("C22", "direnv applies an allowed directory's environment only inside it and undoes it",
     "The .env or .envrc of a root allowed with allow-direnv is read, and its variables are set, only when the working directory lies in that root (whole path components, not a text prefix). Before a variable or PATH is overwritten, what it held is remembered; on leaving the root exactly that is written back, and a variable is removed only if it was not set before; PATH_ADD puts its directory before the existing PATH, separated by a colon. A root is never lost from the list of roots, even when its file cannot be read.",
     ["inputs", "histories"], "every sequence of directory changes, set of roots and content of environment files",
     "The tests parse one file and construct one root; entering and leaving roots with existing variables, nested or like-named directories and unreadable files is not tested.",
     ["dsh/src/direnv.rs", "dsh/src/environment/variables.rs"],
     [("loading and unloading roots", "dsh/src/direnv.rs")],
     "typestate and value-provenance path simulation over the code that loads and unloads roots",
     "Deletion and setting go through the environment's system variables; a change the user makes to such a variable while inside the root is undone on leaving, as for any variable the root set.")
prop("C25", "Lisp code sets variables that hijack programs only at the Loose level",
     "At every safety level but Loose, Lisp code (the configuration, macros, hooks) cannot set LD_PRELOAD, LD_LIBRARY_PATH, DYLD_INSERT_LIBRARIES, PYTHONPATH, PERL5LIB, RUBYLIB or NODE_OPTIONS, as a shell variable or in the environment: the attempt is an error and nothing is stored. The policy is asked about the name that is then stored, for the level the shell is at, in every function through which Lisp code can store a variable.",
     ["inputs", "histories"], "every Lisp form, name, value list and safety level",
     "The tests set one such variable with one function at one level; another function, another spelling of the call or another level is not among them.",
     ["dsh/src/lisp/builtin.rs", "dsh/src/lisp/interpreter.rs", "dsh/src/safety/mod.rs", "dsh/src/environment/variables.rs"],
     [("functions that set variables", "dsh/src/lisp/builtin.rs"), ("the policy", "dsh/src/safety/mod.rs")],
     "path simulation with value identity over the functions Lisp can call; constant propagation through the policy",
     "Who can store a variable, and on which paths, is taken from MIR on every run. Variables set by commands (export, set, NAME=value, sh ...) are not judged.")
prop("C15", "A job stays in the table until it has ended",
     "Every job the user started is listed by jobs, can be brought back by fg or bg and gets its true state (running, stopped, done) until it has ended and that was reported; none is lost when another job's status arrives first.",
     ["schedules", "histories"], "every order in which children stop, continue and end, against every use of jobs, fg, bg and wait",
     "The tests have no process groups and no terminal; the order of statuses cannot be chosen.",
     ["dsh/src/process/job_wait.rs", "dsh/src/shell/job.rs"],
     [("collection of statuses", "dsh/src/process/job_wait.rs")],
     na="Which job a status belongs to, and whether one was lost, depends on the order in which the kernel reports children at run time; the code collects any child's status (waitpid without a pid) in several loops, and no static rule in reach tells the harmless interleavings from the losing ones. A rule of single ownership would refuse the present design. The losing cases seen while reading are listed in DESIGN.md.")
prop("C26", "Directory and history rankings order entries by use",
     "z and the history suggestions rank an entry used more often and more recently above one used less, at every time and after every restart, and never lose an entry that is still above the limit.",
     ["inputs", "histories"], "every sequence of visits, deletions and restarts at every time",
     "The tests compare a few scores at fixed times.",
     ["dsh-frecency/src/lib.rs", "dsh/src/history/mod.rs"],
     [("scores", "dsh-frecency/src/lib.rs")],
     na="The guarantee is an inequality between floating point scores computed from run-time counts and times (exponential decay); deciding it needs the values, which is beyond a static argument here. What the databases lose or refuse is judged by C20.")
prop("C28", "The line the user typed is run as it was parsed, word for word",
     "The words a command receives are those of the line after quoting, expansion and substitution as documented; what is highlighted or completed is parsed the same way, and no rest of a line is dropped.",
     ["inputs"], "every command line",
     "The tests parse some dozens of lines.",
     ["dsh/src/shell.pest", "dsh/src/parser/mod.rs", "dsh/src/shell/parse.rs"],
     [("grammar", "dsh/src/shell.pest")],
     na="Correspondence of an input text with the word list it yields is a relation between run-time values through a PEG grammar interpreted by pest's generated code; an oracle for it is a second parser to be run on inputs, not a static rule. The parts that are structural (operators, redirections, quoting toward other shells) are judged by C13, C14 and C10.")
prop("C29", "The prompt stays responsive",
     "Completion, suggestions, prompt modules and AI requests never keep the line editor from reading keys longer than their time limit, whatever the disk, the network or a started helper does.",
     ["schedules", "fault_sequences"], "every delay of a file system, server, helper program or lock",
     "The tests measure nothing under load.",
     ["dsh/src/completion/integrated.rs", "dsh/src/prompt/mod.rs"],
     [("background work", "dsh/src/prompt/mod.rs")],
     na="An upper bound on waiting time depends on run-time quantities (I/O, network, scheduling). That no lock is waited for by its holder, and that none is held across a suspension, is judged by C24.")
prop("C31", "Lisp programs evaluate as the language is documented",
     "Special forms, macros, closures, arithmetic and the list functions of the embedded Lisp give the documented results for every program, and an error inside one never changes what was evaluated before it.",
     ["programs"], "every Lisp program",
     "The tests evaluate sample expressions.",
     ["dsh/src/lisp/interpreter.rs", "dsh/src/lisp/default_environment.rs"],
     [("interpreter", "dsh/src/lisp/interpreter.rs")],
     na="Functional correctness of an interpreter quantifies over values and programs; it needs a reference semantics and execution or proof, not a static rule over the source. Crashes by missing arguments or division (C12), locks (C24) and effects of a failed configuration (C19) are judged.")
