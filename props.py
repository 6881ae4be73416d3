# Properties; executed by meta.py.
prop("C01", "Input streams deliver exactly their source's bytes",
     "Whatever the sizes in which a source hands out its bytes, reading a stream through any mix of reads, skips, single bytes, look-ahead requests, saved positions and rewinds, and moves of the stream delivers exactly the source's bytes, in order, once. "
     "A request fails, and the end is reported, exactly when fewer bytes are left than asked for, be that because the source ended or because it failed; what is still there is delivered first and the rest of the caller's buffer is zero. "
     "No memory or source outlives the stream, and a borrowed source is left alone.",
     ["inputs", "schedules", "fault_sequences"], "all source contents, fragmentations, block sizes, operation sequences, read errors, partial and interrupted reads, and interleavings of a pipe's writer with its reader",
     "The tests read short strings from one contiguous buffer; the number of ways to cut a stream into blocks and to position requests against those cuts is unbounded.",
     ["io/InStream.h", "io/InStream.cpp", "container/BlockList.h", "container/BlockList.cpp", "io/Pipe.cpp"],
     [("buffering in linked blocks with look-ahead and rewind", R + "io/InStream.cpp"), ("block list with reference counts", R + "container/BlockList.cpp")],
     note="Random operation sequences against a byte-array model over pipes that fragment, end or fail anywhere, simulated files, and pipes with a concurrent writer; heap accesses are checked (overrun, use after free, leak).", nontrivial="all")
prop("C02", "Output streams pass on every byte once and report lost data",
     "Everything written to a stream, by any mix of writes, single bytes, formatted output, direct buffer access, flushes and moves, reaches the destination once, in order, by the time the stream is flushed or destroyed. "
     "If the destination fails, it has received a prefix of what was written, the stream says so from then on, and neither later writes nor flushes crash or pretend to succeed. "
     "In-memory streams return exactly what was written, and a stream on a fixed buffer never writes outside of it and reports when it is full.",
     ["inputs", "fault_sequences"], "all operation sequences, block sizes, failure points of the destination, ownership forms and moves",
     "The tests write to memory streams that never fail and never cross a block boundary at a critical point.",
     ["io/OutStream.h", "io/OutStream.cpp", "container/BlockList.cpp", "io/Pipe.h"],
     [("buffer and flush logic", R + "io/OutStream.cpp")],
     note="Random operation sequences against a byte-array model; the destination accepts a random number of bytes and fails for good.", nontrivial="all")
prop("C03", "Descriptor I/O hides interruptions and reports real errors",
     "Reading and writing files, pipes and the standard streams gives the same result whether or not system calls are interrupted by signals or transfer fewer bytes than asked for: nothing is lost, duplicated or reordered. "
     "A real error (device error, full disk, vanished reader) is reported to the caller by the failing operation or at the latest by the flush, without a crash, and what arrived is a prefix of what was sent. "
     "A flush to the device that succeeds means the data written so far survives a power loss, and no descriptor stays open after its owner is destroyed.",
     ["schedules", "fault_sequences", "crash_points"], "all patterns of interrupted, partial and failing calls, disk-full points, power losses and reader/writer interleavings",
     "System calls on a quiet machine are never interrupted, never partial and never fail, so no test reaches these paths.",
     ["io/impl/Pipe_FD.cpp", "io/impl/Pipe_FD.h", "io/StdIO.cpp", "io/Pipe.cpp"],
     [("retry and partial-transfer loops", R + "io/impl/Pipe_FD.cpp"), ("standard streams", R + "io/StdIO.cpp")],
     note="Real pipe classes on simulated files, pipes and standard streams with injected EINTR, short transfers, EIO, ENOSPC, EPIPE, fsync errors and power loss.")
prop("C04", "Text filters do not depend on how the data is cut into pieces",
     "Converting between UTF-8, UTF-16 (both byte orders) and single-byte text, and converting line endings, gives the same result for a given text however input and output are cut into pieces and however small the buffers are, including multi-byte characters and line breaks that straddle a cut. "
     "The result is the exact encoding of the text, nothing is held back after a flush at a character boundary or at the end, and a failing destination is reported.",
     ["inputs", "fault_sequences"], "all texts including malformed ones, encodings, cut positions, buffer sizes and destination failures",
     "The tests convert whole files in one go with large buffers.",
     ["io/text/TextConverter.cpp", "io/text/TextConverter.h", "io/text/NewLineFilter.cpp", "string/TextEncoding.cpp"],
     [("converter with carry-over of incomplete characters", R + "io/text/TextConverter.cpp"), ("newline filter", R + "io/text/NewLineFilter.cpp")],
     note="Independent reference encoder and one-shot reference; random texts, malformed bytes, fragmentations and failing destinations.", nontrivial="all")
prop("C05", "Text files survive saving and loading, and detection is harmless",
     "A text saved in any supported format (encoding, byte order mark, line endings) and loaded in that format again comes back unchanged, with every byte on the way as the format prescribes. "
     "Detecting the format of a stream gives the same answer however the stream is cut into pieces and loses none of its bytes; a saved text with a byte order mark is recognised. "
     "A destination that fails is reported.",
     ["inputs", "fault_sequences"], "all texts, formats, fragmentations of the stream, partial and interrupted calls and destination failures",
     "The tests detect the format of a fixed set of files that fit one buffer.",
     ["io/text/TextFormat.cpp", "io/text/TextFormat.h", "io/text/NewLineFilter.cpp", "io/text/TextConverter.cpp", "filesystem/FileSystem.cpp"],
     [("importer/exporter chains", R + "io/text/TextFormat.cpp"), ("autodetection with rewind", R + "io/text/TextFormat.cpp")],
     note="Round trips through memory, failing pipes and simulated files against an independent encoder.", nontrivial="all")
prop("C06", "Saving a file if it differs is all or nothing",
     "At every instant, after every crash of the process, after every power loss and for every concurrent reader, a file written by the save-if-different functions holds one complete version: its old contents or contents passed to a save. "
     "A save reports success only if the file then has the new contents, reports that nothing changed only if the contents were identical (and then modifies nothing), and leaves the old contents if it fails. "
     "After failures stop, saving again works and missing directories are created.",
     ["crash_points", "schedules", "fault_sequences"], "all crash and power-loss points, failing calls, sequences of saves, and concurrent savers and readers",
     "Tests neither crash nor fail writes, and check the file only after success.",
     ["filesystem/FileSystem.cpp", "filesystem/FileSystem.h", "filesystem/impl/FileSystem_POSIX.cpp"],
     [("save to a temporary file, flush and rename", R + "filesystem/FileSystem.cpp")],
     note="Process kill before each file-system modification, power loss with arbitrary surviving subsets of unsynced effects, injected errors, concurrent readers and writers.")
prop("C07", "File system operations do what they report, in every thread",
     "Every file system operation has exactly the effect its result says, whether called on the native or on a virtual file system: success means it happened, failure of a single operation leaves the tree as it was, and documented results (not found, already exists, access denied) are given in the documented situations. "
     "The last result code of a thread is that of the thread's own last operation, whatever other threads do. "
     "Failing system calls are reported as failures, without a crash, with no descriptor left open, and never as success or as made-up contents.",
     ["histories", "schedules", "fault_sequences"], "all operation sequences, tree contents, injected errors, permissions and interleavings of threads working on their own directories",
     "The repository's tests do not exercise file system operations with errors or threads at all.",
     ["filesystem/FileSystem.h", "filesystem/FileSystem.cpp", "filesystem/impl/FileSystem_POSIX.cpp", "filesystem/impl/FileSystem_Virtual.cpp"],
     [("error translation and thread-local result", R + "filesystem/impl/FileSystem_POSIX.cpp")],
     note="Random operation histories against a model tree after each operation, with injected errors in each system call and one to three threads.")
prop("C08", "Directory trees are walked, created and removed exactly",
     "Removing a directory tree removes that tree and nothing else: symbolic links are removed, not followed; success means it is gone, a failure leaves the rest intact and trying again after the failures stop succeeds. "
     "Walking a tree visits each directory not pruned by the caller once and delivers each of its entries once and as the right kind, or reports a failure, even while others create and delete files. "
     "Creating directories succeeds even if others create the same directories at the same time, and neither of these leaves memory or descriptors behind, even if abandoned half-way.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all trees with links, failing calls, missing entry types, prunings, early exits and interleavings",
     "No test walks or removes a tree with links, errors or concurrent changes.",
     ["filesystem/FileSystem.cpp", "filesystem/FileSystem.h", "filesystem/impl/FileSystem_POSIX.cpp", "filesystem/impl/FileSystem_Virtual.cpp"],
     [("recursive removal", R + "filesystem/impl/FileSystem_POSIX.cpp"), ("walk", R + "filesystem/FileSystem.cpp"), ("recursive creation", R + "filesystem/FileSystem.cpp")],
     note="Random trees with links leading outside, dangling and looping; snapshot comparison of the whole simulated disk; concurrent creators, walkers and removers. A removal racing with an adversary who swaps directories for links is out of scope.")
prop("C09", "A virtual file system stays inside its root directory",
     "No path passed to any operation of a virtual file system reads, lists, checks, creates, changes, moves or deletes anything outside of its root directory (other than through a symbolic link inside it): absolute paths and paths that climb out are refused with an error, without a crash. "
     "Every other path refers to the file of that name below the root, whatever redundant components it has and whether the root was given as an absolute or relative path or lies within another virtual file system.",
     ["inputs", "histories", "configurations", "fault_sequences"], "all path strings, root directories, nestings, operations and failing calls",
     "No test uses a virtual file system.",
     ["filesystem/impl/FileSystem_Virtual.cpp", "filesystem/Path.cpp", "filesystem/FileSystem.cpp"],
     [("translation of paths", R + "filesystem/impl/FileSystem_Virtual.cpp"), ("join and normalize", R + "filesystem/Path.cpp")],
     note="Every file access of the simulated kernel is recorded and must lie below the root; contents are compared with a lexical model.", nontrivial="all")
prop("C10", "Subprocesses get exactly the given program, arguments and connections",
     "A started subprocess runs the given program with the given arguments in the given directory, and its standard streams are connected exactly as asked: to nothing, to those of the parent, to pipes, to given pipes, or error output merged with output; it inherits no other descriptor, even if several threads start subprocesses at the same time. "
     "Everything the child writes reaches the parent once and in order followed by the end of the stream, everything the parent writes reaches the child, and join returns the exit code after the child ended, or a failure if it was killed. "
     "Failures to start are reported, and neither descriptors nor memory are lost.",
     ["schedules", "inputs", "fault_sequences"], "all argument lists, directories, stream connections, child behaviours, exit codes, signals, interleavings of parents and children, and exhausted descriptors or processes",
     "No test of the repository starts a subprocess.",
     ["process/impl/Subprocess_POSIX.cpp", "process/Subprocess.h", "io/impl/Pipe_FD.cpp"],
     [("fork, redirection and exec", R + "process/impl/Subprocess_POSIX.cpp")],
     note="Real parent code up to the exec on simulated processes and pipes; the child programs are scripts of the harness that record what they were given.")
prop("C11", "Locks, condition variables, semaphores and events keep their promises",
     "Mutexes and exclusive locks admit one thread at a time (recursively where documented), shared locks admit readers together but never with a writer, and what a thread wrote before releasing is seen by the next one that acquires; trying a lock never waits and fails only if another thread holds it. "
     "No wake-up is lost: a condition variable releases its mutex while waiting and holds it afterwards, a timed wait ends in time, a semaphore lets exactly as many threads pass as were signalled, and an event releases its waiters until it is reset. "
     "Atomic operations are indivisible.",
     ["schedules", "fault_sequences"], "all interleavings of the threads, spurious wake-ups, interrupted waits and timing",
     "No test of the repository uses more than one thread.",
     ["thread/Mutex.h", "thread/impl/Mutex_CPP11.h", "thread/impl/Mutex_POSIX.h", "thread/impl/Mutex_SpinLock.h", "thread/impl/Mutex_LazyInit.h", "thread/impl/ConditionVariable_CPP11.h", "thread/impl/ConditionVariable_POSIX.h", "thread/impl/Semaphore_POSIX.h", "thread/impl/ManualResetEvent_CondVar.h", "thread/impl/RWLock_POSIX.h", "thread/impl/Atomic_CPP11.h", "thread/RaceDetector.h"],
     [("wrappers of the native primitives", R + "thread/impl/Mutex_CPP11.h"), ("event on a condition variable", R + "thread/impl/ManualResetEvent_CondVar.h")],
     note="Threads as fibers under a seeded scheduler that may switch at every memory access, with happens-before race detection that knows the memory orders used.")
prop("C12", "Threads run once with values of their own and can be joined",
     "A started thread runs its function exactly once with its own copy of the passed function object, joining waits for its end and makes its effects visible, and destroying the Thread object lets the thread go on alone; the function object is destroyed exactly once. "
     "A thread that cannot be created is reported as not valid and its function does not run. "
     "Thread-local variables start at zero and belong to one thread, scoped values are restored, thread ids are unique, and sleeping lasts at least as long as asked for even if interrupted.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings, lifetimes of the function object and the Thread object, failing thread creation, and signals",
     "No test of the repository starts a thread or sleeps.",
     ["thread/impl/Thread_POSIX.h", "thread/impl/Thread_POSIX.cpp", "thread/impl/Thread_CPP11.h", "thread/ThreadLocal.h", "thread/impl/ThreadLocal_POSIX.h", "thread/impl/TID_POSIX.h"],
     [("thread start and join", R + "thread/impl/Thread_POSIX.h"), ("thread-local values and scopes", R + "thread/ThreadLocal.h")],
     note="Both thread classes on fibers, with failing pthread_create, interrupted nanosleep and counted copies of the function objects.", nontrivial="all")
W = "repos/plywood/src/web/"
prop("C13", "TCP connections deliver what was sent and report what happened",
     "Data sent over a TCP connection arrives once, in order, unchanged and followed by the end of the stream, in both directions at once, however the network cuts and delays it and whatever signals interrupt; if the connection breaks, what arrived is a prefix and sending reports the failure. "
     "A listener accepts each incoming connection once, with the address and port of its peer, until its communication is ended, which also ends a waiting accept; connecting and binding succeed or report the reason in the calling thread's own last result, and looking up a host name gives an address of that host in the version asked for or nothing. "
     "No failure crashes the program or loses a descriptor.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of clients and servers, network delays and segmentations, resets, failing calls and exhausted descriptors",
     "No test of the repository opens a socket.",
     ["network/impl/Socket_POSIX.cpp", "network/impl/Socket_POSIX.h", "network/IPAddress.cpp", "network/IPAddress.h", "io/impl/Pipe_FD.cpp"],
     [("bind, accept and connect", R + "network/impl/Socket_POSIX.cpp"), ("name lookup", R + "network/IPAddress.cpp")],
     note="Real socket classes on simulated TCP (delay, segmentation, backlog, resets, errors) and a simulated resolver; transfers between threads, operation histories against a model of listeners and pending connections.", nontrivial="all")
prop("C14", "The web server answers every request once, exactly and in order",
     "Every well-formed request that reaches the web server is passed to the handler once, with its method, URI, version, header fields and the client's address as sent, and is answered on its connection, in order, with the status, header fields and content the handler wrote, in a form whose end the client can recognize; malformed requests are answered with an error and never reach the handler. "
     "That holds however the requests are cut into pieces, pipelined or interleaved with those of other connections; HTTP/1.1 connections stay open for further requests and others are closed after the response. "
     "Clients that stall, disconnect or cause errors affect no other connection, the server goes on accepting, and connections that ended leave neither threads nor descriptors nor memory behind.",
     ["inputs", "schedules", "fault_sequences"], "all request sequences, fragmentations, handler behaviours, numbers of clients, interleavings, disconnections, socket errors, failing thread creation and exhausted descriptors",
     "No test of the repository starts the web server or sends it a request.",
     [W + "common/web-common/Server.cpp", W + "common/web-common/Server.h", W + "common/web-common/Response.h", W + "common/web-common/OutPipe_HTTPChunked.cpp", W + "common/web-common/Echo.cpp", "network/impl/Socket_POSIX.cpp"],
     [("accept loop, request parsing and keep-alive", W + "common/web-common/Server.cpp"), ("chunked transfer encoding", W + "common/web-common/OutPipe_HTTPChunked.cpp")],
     note="The real server, thread per connection, on simulated TCP with independent HTTP clients of the harness: pipelining, fragmentation, keep-alive, half-close, stalls, resets; an independent response parser compares with what the handler wrote. Requests with a body are not covered.", nontrivial="all",
     real=["web-common (Server, Response, OutPipe_HTTPChunked, Echo)"], stub=["HTTP clients: scripts of the harness"])
prop("C15", "File handlers give out exactly the files below their root",
     "Whatever path a client requests, the handlers for static files, source code and documentation pages neither read nor reveal anything outside of their root directory: such requests are answered with not found. "
     "A request for a file below the root is answered with one complete version of its contents (as it is; with line numbers and escaped; or as a page) and its content type, even while files are replaced, and whether the root was given as a relative or absolute path; anything else is answered with not found. "
     "Each request gets exactly one response, errors of the file system do not crash a handler or pass off other contents, and no descriptor stays open.",
     ["inputs", "schedules", "fault_sequences"], "all request paths, file trees, root directories, contents, replacements at any time, failing and interrupted file operations and concurrent requests",
     "No test of the repository calls a request handler.",
     [W + "common/web-common/FetchFromFileSystem.cpp", W + "common/web-common/SourceCode.cpp", W + "serve-docs/ply-web-serve-docs/DocServer.cpp", "filesystem/Path.cpp", "filesystem/FileSystem.cpp"],
     [("path resolution", W + "common/web-common/FetchFromFileSystem.cpp"), ("page lookup", W + "serve-docs/ply-web-serve-docs/DocServer.cpp")],
     note="Every file access of the simulated kernel is recorded and must lie below the root; responses are compared with the versions of the file that were in place during the request. Names with several dots and paths with NUL bytes are not covered.", nontrivial="all",
     real=["web-common (FetchFromFileSystem, SourceCode)", "ply-web-serve-docs (DocServer)"], stub=["connection: an in-memory response"])
prop("C16", "The documentation server always shows one current table of contents",
     "Each page is served complete with exactly one version of the table of contents, with the path to the requested page expanded and the page selected; it is the version in place or one replaced during the request, and later requests never show an older one. "
     "While the contents file is missing, half-written, ill-formed or cannot be read, the last good version is shown, and when it is readable again the new version is shown; before there was one, an error is reported. "
     "That holds with any number of concurrent requests and reloads, without a crash, a data race or a loss of memory or descriptors.",
     ["schedules", "inputs", "fault_sequences"], "all interleavings of requests and updates of the contents file, contents, ill-formed and half-written files, and failing file operations",
     "No test of the repository uses the documentation server or reloads contents.",
     [W + "serve-docs/ply-web-serve-docs/DocServer.cpp", W + "serve-docs/ply-web-serve-docs/DocServer.h", W + "documentation/web-documentation/Contents.h", "repos/plywood/src/pylon/pylon/pylon/Parse.cpp", "repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp"],
     [("reload when the modification time changed", W + "serve-docs/ply-web-serve-docs/DocServer.cpp"), ("table of contents", W + "serve-docs/ply-web-serve-docs/DocServer.cpp")],
     note="Threads request pages while an author replaces the contents file atomically or in place; the sidebar is compared with an independent rendering of every version. Links that occur twice in the contents are not covered.", nontrivial="all",
     real=["ply-web-serve-docs (DocServer)", "pylon parser, pylon-reflect import, reflection of Contents"], stub=["connection: an in-memory response"])
prop("C17", "Heaps hand out memory that nobody else uses, and take it back",
     "Blocks of a heap never overlap, are at least as large and aligned as asked for, lie within memory obtained from the system, and keep their contents until they are freed or resized; resizing keeps the common part. "
     "Freed memory can be used again, so that repeating the same requests does not take more from the system, large amounts go back to it, and the statistics tell what was obtained from the system and cover what is in use. "
     "That holds for any sequence of requests from any number of threads, including the first ones; the page allocator reserves, commits, decommits and frees exactly the pages asked for.",
     ["inputs", "schedules", "histories"], "all sequences of requests and sizes, interleavings of the threads sharing a heap, and placements of the memory by the system",
     "The tests of the repository allocate a few blocks from one thread and never look at overlaps, reuse or statistics.",
     ["memory/impl/Heap_DL.cpp", "memory/impl/Heap_DL.h", "memory/impl/MemPage_POSIX.cpp", "memory/impl/MemPage_POSIX.h", "thread/impl/Mutex_LazyInit.h"],
     [("dlmalloc with locked entry points", R + "memory/impl/Heap_DL.h"), ("lazily created mutex", R + "thread/impl/Mutex_LazyInit.h")],
     note="The shipped allocator on simulated mmap, whose placement (adjacent, below, apart, random) is drawn; every block is checked against a model of live blocks and the mapped pages. getSize() reads without a lock on purpose and is not race-checked; mmap failures end the program by contract and are not injected.", nontrivial="all",
     real=["Heap_DL (dlmalloc)", "MemPage_POSIX", "Mutex_LazyInit"], stub=["mmap, munmap, mprotect, madvise: the simulated kernel"])
B = "repos/plywood/src/build/"
PT = "repos/plywood/src/apps/plytool/plytool/"
prop("C18", "PlyTool commands do what they say, and never build from outdated state",
     "A PlyTool command (folder, target, extern, module, generate, build, run) changes exactly the settings it is about in the build folder it is about, and succeeds exactly if it can; after it succeeded, its effects are in the settings files, and the target was built with the build system that CMake made from the current settings and module definitions before it is run. "
     "A command that is hit by failing system calls, failing tools or a crash reports it, leaves each settings file as before or with the new settings, and nothing that is unfinished, outdated or failed is later taken for up to date. "
     "CMake is run only when something has changed.",
     ["histories", "fault_sequences", "crash_points"], "all histories of commands, edits of modules and settings, crash points between file system modifications, failing calls, and failing, dying, chatty or missing tools",
     "The tests of the repository do not cover PlyTool at all; what breaks it takes a sequence of commands with an edit, a failure or a crash at a particular point in between.",
     [PT + "Main.cpp", PT + "Command_Build.cpp", PT + "Command_Generate.cpp", PT + "Command_Target.cpp", PT + "Command_Extern.cpp", PT + "Command_Folder.cpp", PT + "Command_Module.cpp", PT + "Command_Run.cpp", B + "folder/ply-build-folder/BuildFolder.cpp", B + "target/ply-build-target/CMakeLists.cpp", B + "target/ply-build-target/BuildTarget.cpp", PT + "WorkspaceSettings.cpp"],
     [("build system signature in info.pylon, erased before CMake runs", B + "folder/ply-build-folder/BuildFolder.cpp"), ("settings saved with makeDirsAndSaveTextIfDifferent", PT + "WorkspaceSettings.cpp"), ("current folder and target resolution, --auto", PT + "Command_Target.cpp")],
     note="PlyTool's real commands in a simulated process, with CMake, make and the built executables simulated and the instantiator DLLs interpreted from the module definition files; checked against a model of settings, module definitions and the build system. Several commands at the same time, the commands open, cleanup, codegen, bootstrap and util, and dependencies on shared roots are not covered.",
     real=["PlyTool commands", "BuildFolder", "RepoRegistry", "ProjectInstantiator", "CMakeLists writer", "Pylon", "Subprocess", "FileSystem"], stub=["cmake", "make", "built executables", "dlopen'ed instantiator DLLs (interpreted)"])
prop("C19", "Changed module definitions always take effect",
     "After the registry of modules was created, it corresponds to the module definition files (*.modules.cpp) of all repos as they are: it has exactly their modules and extern providers under their names, whatever files were added, changed, moved, swapped, replaced by older ones or removed since an earlier run, or during it by the next run. "
     "The instantiator libraries are rebuilt only if something has changed, and an interrupted or failed build is never mistaken for a complete one. "
     "Different sets of module definition files (names, sizes, times) have different signatures and the same set always has the same one; errors in the files and failures are reported.",
     ["histories", "fault_sequences", "crash_points"], "all histories of edits, forced and unforced builds, crash points, failing calls and failing, dying or missing tools, and orders in which the system lists directories",
     "No test builds the libraries; what breaks this takes an edit that keeps the size or the time, or an interruption between two steps of a build.",
     [B + "repo/ply-build-repo/BuildInstantiatorDLLs.cpp", B + "repo/ply-build-repo/ExtractModuleFunctions.cpp", B + "repo/ply-build-repo/RepoRegistry.cpp", B + "repo/ply-build-repo/Repo.cpp"],
     [("signature of the module definition files in signature.pylon", B + "repo/ply-build-repo/BuildInstantiatorDLLs.cpp"), ("extraction of instantiator functions", B + "repo/ply-build-repo/ExtractModuleFunctions.cpp")],
     note="The tools are simulated: make's library records the files that it was built from, which is compared with the files on the disk. Times have the resolution of a second, so changes within the same second that keep the size are excluded.",
     real=["BuildInstantiatorDLLs", "ExtractModuleFunctions", "C++ parser", "RepoRegistry", "CMakeLists writer", "Subprocess", "FileSystem"], stub=["cmake", "make", "dlopen'ed instantiator DLLs (interpreted)"])
prop("C20", "The generated build system is exactly what the modules define",
     "CMakeLists.txt, written for a build folder, has exactly the targets that are reachable from its root targets, with the kind, sources, include directories, definitions and link libraries that the modules define, passed on to dependents exactly as far as their visibility says, and libraries in an order in which they can be linked. "
     "It is the same in whatever order the system lists directories and whenever it is generated again. "
     "If a needed extern has no selected or installed provider, or a root target is invalid, that is reported and nothing is generated.",
     ["inputs", "histories"], "all module graphs, visibilities, root targets, selected and installed extern providers, edits between generations and directory orders",
     "No test generates a build system; the number of module graphs and of histories of generations is unbounded.",
     [B + "repo/ply-build-repo/ProjectInstantiator.cpp", B + "target/ply-build-target/CMakeLists.cpp", B + "target/ply-build-target/Dependency.cpp", B + "repo/ply-build-repo/ModuleArgs.cpp", B + "folder/ply-build-folder/BuildFolder.cpp", B + "repo/ply-build-repo/ExternProvider.cpp"],
     [("instantiation and inheritance of dependencies", B + "repo/ply-build-repo/ProjectInstantiator.cpp"), ("CMakeLists.txt", B + "target/ply-build-target/CMakeLists.cpp")],
     note="CMakeLists.txt is parsed and compared with an independent instantiation of the same modules. Shared roots are limited to one, which is the last.", nontrivial="all",
     real=["BuildFolder", "RepoRegistry", "ProjectInstantiator", "ModuleArgs", "CMakeLists writer", "FileSystem"], stub=["cmake", "make", "dlopen'ed instantiator DLLs (interpreted)"])
prop("C21", "Text parsed from a stream does not depend on how it arrives",
     "Parsing integers in any base, floating-point numbers, identifiers, quoted strings, lines, whitespace and runs of characters, searching for a terminator and reading strings give the value and consume exactly the characters that the format describes, wherever the input is cut, however long it is and whatever was read before. "
     "Missing digits, overflow, missing quotes, bad escapes, a missing terminator and the end of the input are reported exactly when they occur, and a failing source only makes the text end early. "
     "Integers and floating-point numbers printed in any base and escaped strings read back equal.",
     ["inputs", "fault_sequences"], "all texts, formats, fragmentations into blocks and reads, positions in the stream and failing or interrupted reads",
     "The tests parse whole strings in memory; a number, escape or terminator cut by the end of a block and numbers at the limits of their type are never tried.",
     ["io/impl/TypeParser.cpp", "io/impl/TypeParser.h", "io/impl/FormatString.cpp", "io/InStream.cpp", "io/InStream.h", "io/impl/TypePrinter.cpp", "container/BlockList.cpp"],
     [("parsers of the formats", R + "io/impl/TypeParser.cpp"), ("save points and strings across blocks", R + "io/InStream.cpp")],
     note="An independent parser of the harness says what each operation returns and consumes. Not covered: numbers like '.5', exponents beyond the range of double.", nontrivial="all")
prop("C22", "Shared objects live exactly as long as someone refers to them",
     "An object with counted references that threads share is destroyed exactly once, when the last reference to it goes, after everything the other threads did to it, and never earlier. "
     "Copying, moving, assigning (also from or through the object that is being replaced), releasing and clearing a handle change the counts by exactly what the handle gains or loses. "
     "With weak references, the contents are destroyed when the last strong reference goes, and the memory is freed once, when the last reference of either kind is gone and the contents have been destroyed.",
     ["schedules", "histories"], "all interleavings of threads copying, moving, assigning and dropping references, at the level of single atomic operations, and all histories of handle operations",
     "No test shares an object between threads; the tests never assign through the object that is being replaced.",
     ["container/Reference.h", "container/WeakRef.h", "thread/impl/Atomic_CPP11.h"],
     [("counted references", R + "container/Reference.h"), ("strong and weak counts", R + "container/WeakRef.h")],
     note="Instrumented memory accesses with happens-before tracking: an access that isn't ordered before the destruction is reported, whatever the schedule. A weak reference is only copied while a strong one is held, as the interface asks.", nontrivial="all")
prop("C23", "Log lines and trace events are recorded whole and once",
     "Each line that a thread logs appears once and whole on the standard output, in the thread's order, with its thread, channel and time, also if writing is interrupted or (with one thread) accepts only part of it, and a write that fails loses at most its own line. "
     "Trace events of all threads are found once and in each thread's order, except that only the oldest pages beyond the configured number are given up; counters are exact. "
     "Trace groups that threads register at the same time each appear once and complete.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of logging and tracing threads, page changes, interrupted, short and failing writes",
     "No test logs or traces anything.",
     ["log/Log.cpp", "log/Log.h", "log/impl/Logger_Stdout.h", "thread/impl/Trace_MemLog.cpp", "thread/impl/Trace_MemLog.h", "thread/impl/Trace_Counters.h"],
     [("log lines", R + "log/impl/Logger_Stdout.h"), ("event pages", R + "thread/impl/Trace_MemLog.cpp")],
     note="Not covered: short writes with several threads (lines may then be interleaved), and threads that stand still while their event page is given up.", nontrivial="all")
prop("C24", "plytool codegen writes exactly what the reflection commands say",
     "After plytool codegen, the codegen/*.inl files of each folder hold exactly the reflected structs with their members, the enums and the switches of the sources (.h and .cpp, outside of nocodegen folders) that share them, in the order of the sources; each switch has its switch-*.inl and the #include of it before its closing brace, outdated generated #include lines are gone, no other file is touched, and running it again changes nothing, in whatever order the system lists directories. "
     "Errors in a source are reported with their location, and leave it and the files generated from it as they were. "
     "If a run crashes or calls fail, each file is the old or the new one and the failure is reported, a source that is edited meanwhile is never corrupted, and the next run completes the work.",
     ["inputs", "histories", "crash_points", "fault_sequences", "schedules"], "all sources, edits between and during runs, crash points, failing and interrupted file operations and directory orders",
     "No test runs plytool codegen.",
     [PT + "Command_CodeGen.cpp", PT + "ReflectionHooks.cpp", "repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp", "repos/plywood/src/cpp/ply-cpp/ParsePlywoodSrcFile.cpp", "repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp", "io/text/FileLocationMap.cpp"],
     [("reflection commands", PT + "ReflectionHooks.cpp"), ("generated files", PT + "Command_CodeGen.cpp")],
     note="Sources are generated together with what codegen should make of them. Not covered: several declarators in one member declaration, switches without states, directories that can't be listed, two codegens at once.", nontrivial="all",
     real=["PlyTool codegen", "ply-cpp (preprocessor, parser)", "FileSystem"], stub=["the developer who edits files: a fiber of the harness"])


RF = "repos/plywood/src/reflect/ply-reflect/"
prop("C25", "Reflected objects that are saved load back equal, also into changed types",
     "An object of reflected type that is written as an asset and read again comes back equal, whatever it is made of (numbers, strings, enums, fixed, dynamic, typed and enum-indexed arrays, structs, switches, owned objects with the pointers to them, objects of any type), however the streams cut the data and whichever threads save and load other objects at the same time. "
     "If the type has changed meanwhile, members, enum values and switch states are matched by name, numbers are converted, what is unknown or of another kind is skipped and what is missing keeps its default. "
     "Objects written one after the other are read in that order followed by the end, nothing is leaked, and a failing destination is reported.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all types and changes of them, values, stream fragmentations, failing and interrupted file operations and thread schedules",
     "No test saves or loads reflected objects.",
     [RF + "Asset.cpp", RF + "TypeKey.cpp", RF + "PersistReadObject.cpp", RF + "PersistReadSchema.cpp", RF + "PersistWriteObject.cpp", RF + "PersistWriteSchema.cpp", RF + "TypedArray.cpp", RF + "AnyOwnedObject.cpp", RF + "AnySavedObject.cpp", RF + "TypeSynthesizer.cpp", RF + "SynthTypeDeduplicator.cpp", RF + "TypeConverter.cpp", "repos/plywood/src/reflect/ply-reflect/builtin"],
     [("saving and loading each kind of type", RF + "TypeKey.cpp"), ("the description of the types in the file", RF + "PersistWriteSchema.cpp"), ("pointers to owned objects", RF + "PersistWriteObject.cpp")],
     note="Types are generated at run time together with a model of their values. Not covered: null owned pointers and pointers (not supported), damaged files, what numbers become that don't fit the new type.", nontrivial="all",
     real=["ply-reflect", "streams", "FileSystem"], stub=[])


prop("C26", "plytool cleanup gives every source the standard header and nothing else",
     "After plytool cleanup, each .cpp and .h file under repos/plywood/src begins with the standard header in place of the comments it began with (up to the first line outside a comment that is blank or has code in it), and the rest of it is unchanged, saved with the newlines that the settings ask for; no other file is touched and running it again changes nothing. "
     "A source whose leading comment isn't terminated, or that can't be read or written, is reported and left as it is. "
     "If a run crashes or calls fail, each source is the old or the new one, and the next run completes the work.",
     ["inputs", "histories", "crash_points", "fault_sequences"], "all sources, encodings, edits between runs, crash points, failing and interrupted file operations and directory orders",
     "No test runs plytool cleanup.",
     [PT + "Command_Cleanup.cpp", "repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp", "filesystem/FileSystem.cpp", "io/text/TextFormat.cpp"],
     [("headers", PT + "Command_Cleanup.cpp"), ("comments", "repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp")],
     note="Sources are generated together with what cleanup should make of them. Not covered: running clang-format, files that are edited during cleanup.", nontrivial="all",
     real=["PlyTool cleanup", "ply-cpp (preprocessor)", "FileSystem"], stub=["the console: a file of the simulated system"])


PY = "repos/plywood/src/pylon/"
prop("C27", "Pylon documents read back exactly as they were written",
     "A document built by any history of setting, replacing, removing and copying nodes is written so that parsing it gives the same structure, keys, order and texts, each node located where it is in the text; texts written by hand with other separators, quotes, escapes and whitespace parse alike, and a text that isn't a document is refused with the error located at the first token that doesn't fit, without ever failing to end. "
     "Objects exported to a document and imported from it come back equal, members that a document doesn't mention keep their values, members that the type doesn't have are ignored, and importing into the same object again leaks nothing. "
     "Several threads may read the same document, a source or destination that fails is reported, and nothing is leaked.",
     ["inputs", "histories", "fault_sequences", "schedules"], "all documents, edit histories, texts and objects, short, interrupted and failing reads and writes, and interleavings of threads reading one document",
     "The repository has no test of Pylon.",
     [PY + "pylon/pylon/Node.cpp", PY + "pylon/pylon/Node.h", PY + "pylon/pylon/Parse.cpp", PY + "pylon/pylon/Write.cpp", PY + "reflect/pylon-reflect/Import.cpp", PY + "reflect/pylon-reflect/Export.cpp", "io/text/FileLocationMap.cpp", "io/impl/FormatString.cpp"],
     [("parser", PY + "pylon/pylon/Parse.cpp"), ("writer", PY + "pylon/pylon/Write.cpp"), ("objects", PY + "reflect/pylon-reflect/Import.cpp")],
     note="An independent parser of the harness says what each text means and where its first error is. Not covered: set() on a node that isn't an object, reusing one Parser, copies or parsed nodes that outlive the text they refer to, importing documents whose structure doesn't fit the type (an assertion, as documented), the wording of messages.", nontrivial="all",
     real=["pylon", "pylon-reflect", "ply-reflect", "streams", "FileSystem"], stub=[])
