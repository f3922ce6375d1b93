#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(),
         observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))


prop("C01", "Integers in the binary format decode exactly as LEB128 specifies",
     "Every integer immediate of a module (signed 32/33/64-bit and unsigned 32-bit LEB128) is decoded to exactly the value the WebAssembly binary format assigns to its bytes, for every encoding length the format allows. Encodings which are too long, overflow the type, or run past the end of their section are rejected, and decoding never reads beyond the end of the input.",
     ["inputs"], "all byte sequences up to the maximum encoding length of each integer type plus truncations",
     "tests decode a few dozen encodings; over-long, sign-boundary and truncated encodings form a space of 2^80 byte strings",
     ["lib/leb128.c", "lib/decode.c", "lib/insn_macros.h", "lib/expr.c"],
     [("length, overflow and end-of-input checks of the decoder", "lib/leb128.c"), ("unchecked fast decoder used at execution time", "lib/leb128.c")],
     observe=["module_create result", "value pushed by i32.const/i64.const", "which local/label/type index is used"])
prop("C02", "Integer instructions compute the specified value or trap",
     "Every i32 and i64 numeric instruction (arithmetic, division, bit operations, shifts, rotates, comparisons, width conversions and sign extensions) yields the value the WebAssembly specification defines for every operand combination. Division by zero and signed overflow raise their specific traps, and nothing else traps.",
     ["inputs"], "all operand values of all integer instructions",
     "the spec tests sample a few dozen operand pairs per instruction out of 2^64 to 2^128",
     ["lib/insn_impl_base.h", "lib/insn_op.h", "lib/insn_op_helpers.h", "lib/insn.c"],
     [("operator macros", "lib/insn_op.h, lib/insn_op_helpers.h"), ("instruction bodies", "lib/insn_impl_base.h")],
     observe=["result of an exported function", "trap kind"])
prop("C03", "Floating-point instructions and conversions follow the specification",
     "Every f32 and f64 instruction (arithmetic, min/max, rounding, sign operations, comparisons) and every conversion between integer and floating-point types yields the specified IEEE 754 result for every operand, where any NaN is accepted for a result the specification leaves as an arbitrary NaN. Trapping conversions trap exactly when the operand is NaN or out of range, with the specified trap kind, and saturating conversions never trap.",
     ["inputs"], "all operand bit patterns including NaNs, infinities, zeros and subnormals",
     "the spec tests sample operands; range boundaries, signed zeros and NaN classes of 2^32 to 2^128 operand combinations are not enumerable",
     ["lib/insn_impl_base.h", "lib/insn_impl_fc.h", "lib/insn_op.h", "lib/insn_op_helpers.h"],
     [("range checks before float to integer conversion", "lib/insn_macros.h, lib/insn_op_helpers.h"), ("min/max and rounding helpers", "lib/insn_op_helpers.h")],
     observe=["result of an exported function", "trap kind"])
prop("C04", "SIMD instructions act lane by lane exactly as specified",
     "Every 128-bit vector instruction (lane arithmetic, saturating and widening operations, comparisons, shifts, shuffles and swizzles, lane access, narrowing, conversions, bitmasks, any/all-true tests) yields the specified value in every lane for every operand. Lane results depend on the specified input lanes only and SIMD instructions never trap except for memory accesses.",
     ["inputs"], "all values of all lanes, and all lane immediates",
     "operand space is 2^256 per instruction; tests use a few vectors",
     ["lib/insn_impl_simd.h", "lib/insn_op.h", "lib/insn_op_helpers.h"],
     [("lane loops and lane operator macros", "lib/insn_impl_simd.h")],
     observe=["v128 or scalar result of an exported function"])
prop("C05", "Loads and stores stay inside linear memory and move exact bytes",
     "A load or store (scalar, SIMD or atomic, in any of the module's memories) whose effective address range address+offset lies inside the current memory size transfers exactly those bytes in little-endian order with the specified extension, and changes no other byte. Any access that is not fully inside traps as an out-of-bounds access and leaves memory unchanged; never-written memory reads as zero, and no address or offset makes the interpreter touch host memory outside the guest memory.",
     ["inputs", "histories"], "all addresses, static offsets, memory sizes, stored values, and prior growth or writes",
     "address+offset arithmetic has 2^64 combinations and lazily allocated backing store depends on the access history",
     ["lib/exec_insn_subr.c", "lib/insn_impl_base.h", "lib/insn_impl_simd.h", "lib/insn_impl_threads.h", "lib/insn_macros.h", "lib/endian.h", "lib/instance.c"],
     [("effective address computation and bounds check", "lib/exec_insn_subr.c"), ("lazy extension of the backing store", "lib/exec_insn_subr.c")],
     state=[("memory instance size and allocated bytes", "guest visible size versus host backing store", "lib/instance.h")],
     observe=["loaded value", "memory contents through other loads", "trap kind"])
prop("C06", "Memory growth and bulk memory operations are exact and all-or-nothing",
     "memory.size/grow report and change the size exactly as specified, respecting the declared maximum and preserving contents, and grown memory is zero. memory.fill, memory.copy, memory.init and data.drop check their whole range first, trap without any write when out of range, and otherwise have the effect of the specification for overlapping, empty and boundary ranges.",
     ["inputs", "histories"], "all operands, all memory sizes and maxima, all sequences of grow and bulk operations up to the bound",
     "ranges and overlap cases form a product of three 32-bit operands and the memory state",
     ["lib/exec_insn_subr.c", "lib/insn_impl_fc.h", "lib/insn_impl_base.h", "lib/instance.c"],
     [("memory_grow, range checks, dropped-segment bitmap", "lib/exec_insn_subr.c")],
     state=[("dropped data segments", "segments behaving as empty", "lib/instance.h")],
     observe=["returned size", "memory contents", "trap kind"])
prop("C07", "Table operations and indirect calls are bounds and type checked",
     "table.get/set/size/grow/fill/copy/init and elem.drop act on exactly the specified entries, trap without effect when any part of the range is outside the table or segment, and grow only up to the maximum. An indirect call runs the function stored at that entry if and only if the index is inside the table, the entry is not null and its type is structurally equal to the expected one; otherwise it raises the corresponding trap.",
     ["inputs", "histories"], "all indexes, lengths, table sizes, entry values and types up to the bound",
     "index/length/offset products with table contents as state; tests use fixed modules",
     ["lib/exec_insn_subr.c", "lib/insn_impl_base.h", "lib/insn_impl_fc.h", "lib/insn_impl_control.h", "lib/insn_impl_tailcall.h", "lib/type.c"],
     [("table range checks, function type comparison", "lib/exec_insn_subr.c, lib/type.c")],
     state=[("table size and cells", "current entries", "lib/instance.h")],
     observe=["results and traps of exported functions"])
prop("C08", "Structured control flow transfers control and operands as specified",
     "block, loop, if/else, br, br_if, br_table, return, select and unreachable transfer control to the specified place for every condition and index value, keep exactly the operands the target's type demands, and discard the rest of the operand stack of the blocks left. This holds for any nesting, for values of any size, on first and repeated execution of the same branch.",
     ["inputs", "programs"], "all branch conditions, table indexes and carried values over a family of nested programs",
     "nesting depth, arity, value sizes and branch-cache state multiply; tests sample fixed programs",
     ["lib/exec.c", "lib/insn_impl_control.h", "lib/expr.c", "lib/validation.c"],
     [("branch target table and lookup caches", "lib/exec.c"), ("operand stack rewinding", "lib/exec.c")],
     state=[("label stack and jump caches", "open blocks and recently used targets", "lib/exec_context.h")],
     observe=["results of exported functions"])
prop("C09", "Validation accepts well-typed code and rejects everything else",
     "A function body is accepted exactly when it is well typed by the WebAssembly validation rules: operand types of every instruction, block types, branch operands, unreachable code, local, global, function, table, memory, element and data indexes, alignment and mutability. A module whose body violates a rule is rejected before anything of it is executed.",
     ["programs", "inputs"], "all type assignments, index values, alignments and immediates over all instructions and a family of block structures",
     "the set of ill-typed programs is unbounded; the spec tests list a few hundred",
     ["lib/validation.c", "lib/insn_impl_base.h", "lib/insn_impl_control.h", "lib/insn_impl_fc.h", "lib/insn_impl_simd.h", "lib/insn_impl_threads.h", "lib/insn_impl_eh.h", "lib/insn_impl_tailcall.h", "lib/expr.c", "lib/module.c"],
     [("operand type stack and control frames", "lib/validation.c")],
     observe=["module_create result"])
prop("C10", "Loading arbitrary bytes is memory safe and never leaks",
     "For any byte string, loading it as a module terminates and either yields a module or an error, without reading outside the given bytes, corrupting memory, failing an internal assertion or leaking memory. Malformed structure (bad magic, unknown or misordered or duplicate sections, wrong section sizes, counts that do not match, invalid types, flags or indexes, invalid UTF-8 names) is rejected.",
     ["inputs"], "all contents of a section template's symbolic bytes, up to the stated number of bytes per section",
     "tests and fuzzing sample byte strings; adversarial length/count combinations are rare",
     ["lib/module.c", "lib/decode.c", "lib/leb128.c", "lib/expr.c", "lib/vec.c", "lib/name.c"],
     [("end pointer checks and section dispatch", "lib/module.c, lib/decode.c")],
     observe=["module_create result", "process memory errors", "heap accounting after unload"])
prop("C11", "Calls pass arguments, locals and results exactly, within limits",
     "A direct, indirect, recursive, tail or host-mediated call passes every argument and result of any type and size unchanged and in order, gives the callee zero-initialised locals of its own, and leaves the caller's locals and operands untouched; local.get/set/tee and global.get/set access exactly the named variable. Exceeding the configured frame or stack limits raises the corresponding trap instead of corrupting memory, and a tail call does not consume frames.",
     ["inputs", "programs", "histories"], "all argument values, type mixes and call depths up to the bound",
     "type mixes and cell layouts multiply with call kinds and depth",
     ["lib/exec.c", "lib/insn_impl_control.h", "lib/insn_impl_tailcall.h", "lib/cell.c", "lib/type.c", "lib/cconv.c", "lib/host_instance.c"],
     [("frame entry/exit and local layout", "lib/exec.c, lib/cell.c, lib/type.c")],
     state=[("frames, locals and operand cells", "activation records", "lib/exec_context.h")],
     observe=["results of exported functions", "arguments seen by host functions", "trap kind"])
prop("C12", "Exceptions reach the innermost matching handler with their values",
     "A thrown exception transfers control to the innermost enclosing handler, in the same or a calling function, whose clause matches its tag (or catches all), and delivers exactly the thrown values and exception reference; rethrowing delivers the same exception. Without a matching handler the execution ends with the uncaught-exception trap, and tags are matched by identity across instances, not by type.",
     ["inputs", "programs"], "all thrown values, handler lists and nesting up to the bound",
     "handler selection depends on nesting, tag identity and frames; tests cover fixed programs",
     ["lib/exec.c", "lib/insn_impl_eh.h", "lib/module.c", "lib/validation.c"],
     [("handler search and unwinding", "lib/exec.c")],
     observe=["results of exported functions", "trap kind"])
prop("C13", "Interruption and resumption do not change what a program computes",
     "Execution that is interrupted by the embedder at any of its check points and resumed yields exactly the results, traps, memory, table and global effects of an uninterrupted run, including when a blocking operation or host call is interrupted. A requested interruption or termination is noticed within a bounded number of instructions even in an endless loop.",
     ["schedules", "inputs", "fault_sequences"], "every placement of interruptions over the check points of the explored runs",
     "interruption points multiply with program state; tests only run with one fixed pattern",
     ["lib/exec.c", "lib/restart.c", "lib/restart.h", "lib/exec_insn_subr.c", "lib/host_instance.c", "lib/suspend.c"],
     [("restart state machine of the executor", "lib/exec.c, lib/restart.c")],
     state=[("pending restart and event", "where to continue", "lib/exec_context.h")],
     observe=["results and memory after resumption", "interrupt error returned to the embedder"])
prop("C14", "Imports are satisfied exactly by exports of matching name, kind and type",
     "Instantiation succeeds only if every import is provided under exactly its module and field name with the same kind and a type that matches by the specification's import matching rules (function types equal, limits within bounds, mutability and value types equal, memory flags equal). The instance then shares the provided object itself, and an export is found by exactly its name and kind.",
     ["inputs", "configurations"], "all names, kinds, types and limits of import and export up to the bound",
     "limit and name combinations are unbounded; tests sample mismatches",
     ["lib/import_object.c", "lib/instance.c", "lib/module.c", "lib/type.c", "lib/shared_memory.c", "lib/host_instance.c"],
     [("import resolution and limits matching", "lib/instance.c, lib/import_object.c")],
     observe=["instance_create result", "sharing of state between instances"])
prop("C15", "Instantiation initialises globals, segments and start in order",
     "Constant expressions evaluate to their specified value; globals, tables and memories of a new instance hold exactly the values their initialisers, active element segments and active data segments define, applied in order. An out-of-range active segment or a failing start function makes instantiation fail with the effects of preceding segments only, active segments are dropped after use and passive ones remain usable, and the start function runs once after all of them.",
     ["inputs", "programs"], "all segment offsets, lengths, constants and orders up to the bound",
     "offset/size boundary combinations and partial effects on shared objects are not enumerable by tests",
     ["lib/instance.c", "lib/exec.c", "lib/exec_insn_subr.c", "lib/module.c", "lib/expr.c"],
     [("initialisation sequence", "lib/instance.c"), ("constant expression evaluation", "lib/exec.c")],
     observe=["exported globals, tables and memories after instantiation", "error or trap of instantiation"])
prop("C16", "Atomic memory instructions are exact, aligned and indivisible",
     "Every atomic load, store, read-modify-write and compare-exchange of every width returns the previous value zero-extended, stores the specified new value wrapped to its width and nothing else, and traps on misalignment or out-of-range addresses without effect. On a shared memory, concurrent atomic operations of several threads behave as some sequential order of them.",
     ["inputs", "schedules"], "all operands and addresses; all interleavings of the atomic operations of two threads",
     "operand space and interleavings cannot be enumerated by tests",
     ["lib/insn_impl_threads.h", "lib/exec_insn_subr.c", "lib/insn_macros.h"],
     [("C11 atomics on guest memory, alignment check", "lib/insn_impl_threads.h, lib/exec_insn_subr.c")],
     observe=["returned value", "memory contents"])
prop("C17", "memory.wait and notify neither lose wake-ups nor wake spuriously",
     "A wait blocks only if the memory cell holds the expected value, and then returns 'woken' exactly when a notify on the same address of the same memory selected it, and 'timed out' only when its timeout elapsed. A notify returns the number of waiters it woke, which is at most its argument and at most the number waiting there, and no wake-up is lost in any interleaving.",
     ["schedules", "inputs"], "all interleavings of the lock, condition and atomic operations of the explored threads",
     "schedules cannot be controlled by tests; lost wake-ups need exact timing",
     ["lib/waitlist.c", "lib/exec_insn_subr.c", "lib/insn_impl_threads.h"],
     [("per-address waiter list with lock and generation", "lib/waitlist.c")],
     state=[("waiter lists", "threads blocked per address", "lib/waitlist.c")],
     observe=["result of wait and notify", "termination of all threads"])
prop("C18", "Growing a shared memory is atomic with respect to all other threads",
     "When one thread grows a shared memory, every other thread of the cluster sees either the old or the new size, keeps all its data, and never touches memory that has been moved or released, in every interleaving. Stopping and resuming the other threads always terminates, no thread runs guest code while stopped, and terminating the cluster is noticed by every thread.",
     ["schedules"], "all interleavings of the lock, condition and flag operations of the explored threads",
     "needs exact interleavings of park, resume, lock and interrupt checks",
     ["lib/suspend.c", "lib/cluster.c", "lib/exec.c", "lib/exec_insn_subr.c", "lib/lock.c"],
     [("suspend/park/resume protocol", "lib/suspend.c"), ("thread counting and interrupt", "lib/cluster.c")],
     state=[("suspend state and park counts", "who is stopped", "lib/suspend.c")],
     observe=["memory contents and size", "absence of deadlock and use after free"])
prop("C19", "Any allocation failure ends in a clean error and nothing leaks",
     "If any memory allocation fails while a module is loaded, instantiated, run or torn down, the operation reports an error or the specified failure value, with no crash, no corruption and no use of partially built objects, and teardown then releases everything. The configured heap limit is never exceeded at any level of the accounting hierarchy and the accounting returns to zero after teardown.",
     ["fault_sequences", "inputs"], "every single allocation failure point (and pairs within the bound) of the explored operations",
     "each failure point is a separate path which normal tests never take",
     ["lib/mem.c", "lib/module.c", "lib/instance.c", "lib/exec.c", "lib/vec.c", "lib/expr.c", "lib/validation.c", "libwasi/wasi.c", "libwasi/wasi_table.c"],
     [("error unwinding paths", "lib/module.c, lib/instance.c"), ("reservation with limit", "lib/mem.c")],
     state=[("allocated/limit counters", "heap accounting", "lib/mem.h")],
     observe=["return values", "live allocations after teardown", "memory errors"])
prop("C20", "WASI descriptors: lifecycle, numbering and reuse are exact",
     "A WASI descriptor number refers to the same open object from the call that created it until it is closed or renumbered over; operations on numbers that are not open fail with the bad-descriptor error and affect nothing. Every host descriptor is closed exactly once, renumbering moves the object and closes the replaced one, and a new descriptor gets the lowest number from 3 on which is not open. A creation that fails leaves neither a number nor a host descriptor open. All of this also holds when several threads use and close the descriptors at the same time.",
     ["histories", "inputs", "fault_sequences"], "all sequences of open, close, renumber and use up to the bound, with failing host calls",
     "histories of descriptor operations with failures are unbounded; tests run fixed programs",
     ["libwasi/wasi_table.c", "libwasi/wasi_fdtable.c", "libwasi/wasi_fdinfo.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_host_fdop.c"],
     [("descriptor table with reference counts", "libwasi/wasi_table.c, libwasi/wasi_fdinfo.c")],
     state=[("descriptor table", "number to object map", "libwasi/wasi_impl.h")],
     observe=["WASI error numbers", "host calls issued"])
prop("C21", "WASI calls access only guest memory, for any pointer and length",
     "Whatever pointers, lengths, counts and flags a guest passes to a WASI function, the host reads and writes only bytes inside the guest's linear memory that the call's definition names, reports a fault or error for ranges outside it, and never crashes or corrupts memory. Vectored reads and writes transfer exactly the bytes the host call reported, in iovec order, and results are stored only on success.",
     ["inputs", "fault_sequences"], "all guest pointers, lengths, iovec arrays and host results up to the bound",
     "pointer/length combinations and short or failing host I/O are adversarial inputs tests do not produce",
     ["libwasi/wasi_subr.c", "libwasi/wasi_uio.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_abi_sock.c", "libwasi/wasi_abi_poll.c", "libwasi/wasi_abi_environ.c", "libwasi/wasi_abi_random.c", "lib/host_instance.c"],
     [("guest pointer translation", "lib/host_instance.c, libwasi/wasi_subr.c")],
     observe=["guest memory", "buffers passed to host calls", "WASI error numbers"])
prop("C22", "WASI path calls name exactly the requested file under the directory",
     "A path call is issued to the host for exactly the name formed by the directory descriptor's host path, a slash and the guest's path, and only if the descriptor is an open directory or preopen; absolute paths, paths with embedded NUL and paths outside guest memory are refused without any host call. The operation issued is the one requested, with the requested open, lookup and time flags translated exactly, and two-path calls keep their paths and directories in order.",
     ["inputs"], "all path bytes, lengths, descriptors and flags up to the bound",
     "path bytes and flag products are unbounded; tests use ordinary names",
     ["libwasi/wasi_path_subr.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_host_pathop.c", "libwasi/wasi_vfs.c"],
     [("path copy-in and checks", "libwasi/wasi_path_subr.c")],
     observe=["paths and flags of recorded host calls", "WASI error numbers"])
prop("C23", "WASI data structures and error numbers are translated exactly",
     "Every failing host call is reported to the guest as the WASI error number of the same meaning, or as the I/O error if the implementation has no entry for it, never as success. File status, descriptor status and directory entries are laid out in guest memory exactly as the WASI ABI defines with the values the host reported, in both the preview1 and the unstable variants. Offsets, sizes, times, whence values and open, time and socket flags reach the host unchanged in meaning. Values that do not fit are reported as errors, and no byte outside the record is changed.",
     ["inputs"], "all host results (errno, stat fields, modes, directory entries) up to the bound",
     "host results cannot be forced in tests; most errno and mode values never occur",
     ["libwasi/wasi_subr.c", "libwasi/wasi_host_subr.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_host_dirent.c", "libwasi/wasi_abi.h"],
     [("conversion helpers", "libwasi/wasi_subr.c, libwasi/wasi_host_subr.c")],
     observe=["guest memory", "WASI error numbers"])
prop("C24", "Clocks, timeouts and poll_oneoff report exactly what happened",
     "Clock reads and relative or absolute timeouts convert between nanoseconds and host time without wrapping, never waking early, and overflow is reported or saturated. poll_oneoff reports an event for exactly the subscriptions that are ready, timed out or in error, each with the subscription's user data, and at least one event unless it fails (while a subscription names a bad descriptor only the error events need to be reported). Reads and writes of blocking descriptors wait until the host is ready, non-blocking ones fail with EAGAIN at once, and an interruption neither loses data nor moves a deadline.",
     ["inputs", "fault_sequences"], "all subscription contents, clock values and host poll results up to the bound",
     "time values near the range limits and arbitrary poll results are not reachable by tests",
     ["lib/timeutil.c", "libwasi/wasi_abi_poll.c", "libwasi/wasi_poll_subr.c", "libwasi/wasi_abi_clock.c", "lib/restart.c"],
     [("timespec arithmetic with overflow checks", "lib/timeutil.c"), ("subscription to pollfd mapping", "libwasi/wasi_abi_poll.c")],
     observe=["event records in guest memory", "timeouts passed to the host", "WASI error numbers"])
prop("C25", "Arguments, environment and preopens reach the guest unchanged",
     "The argument and environment strings configured by the embedder are delivered to the guest byte for byte, NUL terminated, in order, with counts and sizes that match what is written. Preopened directories appear as consecutive descriptors with exactly their configured guest names, and a too small guest buffer is an error, not a truncation or overflow. The exit code given to proc_exit reaches the embedder unchanged.",
     ["inputs", "configurations"], "all strings, counts and guest pointers up to the bound",
     "string contents and pointer values are unbounded",
     ["libwasi/wasi_abi_environ.c", "libwasi/wasi_abi_prestat.c", "libwasi/wasi.c", "libwasi/wasi_fdtable.c"],
     [("copy-out of string tables", "libwasi/wasi_abi_environ.c")],
     observe=["guest memory", "WASI error numbers"])
prop("C26", "WASI threads: ids are unique, and traps or exits end every thread",
     "thread-spawn returns a fresh positive thread id below 2^29 that no running thread has, starts exactly one thread running the start function with that id and argument in a new instance sharing the memory, or returns a negative error and starts none. If any thread traps or exits the process, all other threads are stopped and the reported outcome is that of a trap or exit which occurred.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of the explored threads, all id allocation histories up to the bound, failing thread creation",
     "id exhaustion and races between exit and spawn need exact schedules",
     ["libwasi_threads/wasi_threads.c", "lib/idalloc.c", "lib/cluster.c"],
     [("id allocator", "lib/idalloc.c"), ("exit and trap propagation", "libwasi_threads/wasi_threads.c, lib/cluster.c")],
     observe=["returned ids", "arguments of the start function", "reported exit or trap"])
prop("C27", "Dynamic linking binds every symbol to its definition and keeps regions apart",
     "The dynamic loader gives every shared object its own correctly aligned, non-overlapping memory and table region, binds each function and data symbol to the address of its definition plus the defining object's base, with definitions searched in load order, and runs constructors of dependencies first. Missing or mismatching symbols and invalid library names are reported as errors without crashing.",
     ["inputs", "programs"], "all sizes, alignments, symbol offsets and export/import combinations up to the bound",
     "size/alignment arithmetic and symbol graphs are unbounded; tests load two fixed libraries",
     ["libdyld/dyld.c", "libdyld/dyld_plt.c", "libdyld/dyld_dlfcn.c", "lib/module.c"],
     [("region allocation", "libdyld/dyld.c"), ("symbol resolution and GOT/PLT", "libdyld/dyld.c, libdyld/dyld_plt.c")],
     observe=["values of GOT globals and bases", "results of cross-object calls"])
prop("C28", "Writing a loaded module reproduces an equivalent module",
     "Writing a successfully loaded module produces the module's types, imports, functions, tables, memories, tags, globals, exports, start, segments and code in the standard's section order with sizes, counts and indices in the shortest encoding and without custom sections. The output can be loaded again and writing it again yields the same bytes. I/O errors are reported.",
     ["programs", "inputs"], "all contents of the explored sections up to the bound",
     "section contents are unbounded; the writer is exercised on a few files only",
     ["lib/module_writer.c", "lib/module.c"],
     [("section writers", "lib/module_writer.c")],
     observe=["bytes written", "module_create on them"])
prop("C29", "Names are looked up and printed safely and correctly",
     "The name section yields for every function exactly the name it assigns to that index (and the module name), malformed or duplicate name data is ignored without affecting execution, and lookup never reads outside the section. escape_name turns any byte string into printable ASCII without delimiters, one-to-one, unless it exceeds the configured limit or memory is short, when a prefix of whole characters followed by \"..\" within the limit results.",
     ["inputs"], "all name section bytes and all name strings up to the bound",
     "name bytes are adversarial and unbounded",
     ["lib/name.c", "lib/escape.c"],
     [("name section parser and cache", "lib/name.c"), ("escaping", "lib/escape.c")],
     observe=["nametable lookups", "escaped string"])
prop("C30", "Host functions see typed arguments and validated guest pointers",
     "A host function registered with a signature receives its parameters and returns its results with exactly the declared types and values, is only linked to imports of that signature, and guest pointers it translates are valid for the requested size even if the memory moves. Errors and traps it returns reach the embedder unchanged.",
     ["inputs", "configurations"], "all parameter values, signatures and guest addresses up to the bound",
     "signature mixes and addresses are unbounded",
     ["lib/host_instance.c", "lib/cconv.c", "lib/exec.c", "lib/import_object.c"],
     [("signature string parsing, cell conversion", "lib/host_instance.c, lib/cell.c")],
     observe=["values seen by the host function", "result seen by the guest", "instance_create result"])
prop("C31", "The repl and the command line pass values, names and outcomes exactly",
     "Numbers (decimal, octal, hexadecimal), vectors, references and names given on the command line or at the repl prompt are converted to exactly the value they denote. Text which is not a value of the parameter's type, values out of its range, missing or extra arguments and unknown functions or modules are reported as errors, and then nothing is executed. Results are printed with exactly their values and types, traps with their kind. Commands act on the module which was named, or the last one. Given limits hold. The exit status is the exit code of the program, or 1 after errors and traps. Nothing stays allocated when a session ends.",
     ["inputs", "histories", "configurations"], "all argument texts, values, module bytes in hexadecimal, exit codes and sequences of repl commands up to the bound",
     "argument texts and command sequences are unbounded; tests run a few fixed command lines",
     ["cli/repl.c", "cli/main.c", "cli/str_to_uint.c", "lib/nbio.c", "lib/fileio.c"],
     [("argument conversion and printing", "cli/repl.c, cli/str_to_uint.c"), ("commands", "cli/repl.c"), ("options, exit status", "cli/main.c")],
     observe=["standard output", "exit status", "return values of the repl functions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
