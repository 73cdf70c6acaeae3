#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that ids, titles and statements stay reviewable)."""
import json, os
P = []
CORE, ARITH, LEB, WASI, MAIN, OPC = ('pywasm/core.py', 'pywasm/arith.py', 'pywasm/leb128.py', 'pywasm/wasi.py',
                                     'pywasm/__main__.py', 'pywasm/opcode.py')


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


SPECWHY = ('The 12 tests that run here execute ten fixed example programs and two commands; the official spec suite is '
           'downloaded and not available, and even it samples a fixed list of operands. ')

p('C01', 'Scalar integer instructions compute the WebAssembly-defined result',
  '''For every i32 and i64 instruction (arithmetic, division and remainder, comparison, bitwise, shift, rotate, bit
  counting, sign extension, wrapping and widening) and every operand, executing it leaves exactly the value the
  WebAssembly 2.0 specification defines, modulo 2^32 or 2^64. Division or remainder by zero and signed division
  overflow trap, and nothing else in this group traps.''',
  ['inputs'], 'all integer instructions x all pairs of 32/64-bit operands',
  SPECWHY + 'The operand space is 2^64..2^128 per instruction.',
  [CORE, ARITH], [('integer opcode cases of the interpreter loop', 'pywasm/core.py Machine.evaluate'),
                  ('fixed-width integer helpers', 'pywasm/arith.py class I, class U')],
  ['result of invoking an exported function that applies the instruction'])
p('C02', 'Scalar floating-point instructions are bit-exact IEEE 754',
  '''For every f32 and f64 arithmetic, comparison, rounding, min/max, sqrt and sign-manipulation instruction and every
  operand bit pattern (including signed zeros, subnormals, infinities and NaNs), the result is the correctly rounded
  value the WebAssembly specification defines, bit for bit. Where the result is a NaN it is one the specification
  allows (canonical if all NaN inputs are canonical, otherwise quiet), abs/neg/copysign change the sign bit only, and
  none of these instructions ever traps.''',
  ['inputs'], 'all float instructions x all pairs of 32/64-bit operand patterns',
  SPECWHY + 'Signed zeros, double rounding, overflow and NaN payloads are tiny regions of the input space.',
  [CORE, ARITH], [('float opcode cases of the interpreter loop', 'pywasm/core.py Machine.evaluate'),
                  ('float helpers', 'pywasm/arith.py class F32, class F64')],
  ['result bits of invoking an exported function that applies the instruction'])
p('C03', 'Scalar conversions are exact, saturate or trap as specified',
  '''Every conversion between i32, i64, f32 and f64 (truncation, saturating truncation, integer-to-float conversion,
  promotion, demotion, reinterpretation) returns, for every operand bit pattern, the single value the specification
  defines: truncation toward zero, round-to-nearest-even done once, and bits preserved by reinterpretation. Trapping
  truncations trap exactly on NaN and out-of-range operands, and saturating ones never trap.''',
  ['inputs'], 'all conversion instructions x all operand patterns',
  SPECWHY + 'The failing operands sit at rounding ties and range boundaries.',
  [CORE, ARITH], [('conversion opcode cases of the interpreter loop', 'pywasm/core.py Machine.evaluate')],
  ['result bits or trap of invoking an exported function'])
p('C04', 'SIMD integer, lane and bitwise instructions compute the specified vector',
  '''For every v128 instruction that works on integer lanes or raw bits (splat, lane extract/replace, shuffle, swizzle,
  arithmetic incl. saturating, averaging, widening, narrowing, pairwise and dot products, comparison, min/max, shifts,
  bitmask, any/all true, bitwise, select) and all operand vectors and lane immediates, the result is exactly the one
  the specification defines, lane by lane. None of these instructions traps.''',
  ['inputs'], 'all integer SIMD instructions x all 128-bit operands x all immediates',
  SPECWHY + 'No test that runs here executes a single SIMD instruction on adversarial lanes.',
  [CORE, ARITH, OPC], [('SIMD integer opcode cases', 'pywasm/core.py Machine.evaluate'),
                       ('lane packing', 'pywasm/core.py ValInst.from_v128_* / into_v128_*')],
  ['result of invoking an exported function that applies the instruction'])
p('C05', 'SIMD floating-point instructions agree lane-wise with IEEE 754',
  '''Every f32x4 and f64x2 instruction (arithmetic, sqrt, rounding, abs/neg, min/max, pseudo-min/max, comparison,
  conversion, promotion, demotion, saturating truncation) produces in each lane exactly what the corresponding scalar
  operation is specified to produce for that lane, for all operand bit patterns including overflow, signed zeros,
  subnormals and NaNs. None of them traps.''',
  ['inputs'], 'all float SIMD instructions x all 128-bit operands',
  SPECWHY + 'Overflowing, NaN and signed-zero lanes are never exercised.',
  [CORE, ARITH], [('SIMD float opcode cases', 'pywasm/core.py Machine.evaluate'),
                  ('lane packing', 'pywasm/core.py ValInst.from_v128_f32/f64')],
  ['result bits of invoking an exported function that applies the instruction'])
p('C06', 'Structured control flow and locals execute per the operational semantics',
  '''Any valid function built from blocks, loops, conditionals, branches (br, br_if, br_table, return), selects, drops
  and local variables - nested to any depth, with block parameters, multiple results and surplus operands left on the
  stack at a branch - returns the values and performs the side effects that the WebAssembly semantics prescribe. A
  branch transfers control to exactly the labelled construct and carries exactly that label's operands.''',
  ['programs', 'inputs'], 'all valid function bodies and arguments',
  'The examples exercise compiler-shaped control flow only; branch depth, operand unwinding and multi-value blocks '
  'combine without bound.',
  [CORE], [('label stack', 'pywasm/core.py Machine.evaluate / evaluate_br / evaluate_bype')],
  ['results, globals and memory after invoking an exported function'],
  [('label stack', 'active structured control instructions', 'pywasm/core.py Stack.label')])
p('C07', 'Calls pass and return values correctly, however they are made',
  '''Direct, indirect, recursive, cross-module and host-function calls deliver every argument in order, give each
  activation its own zero-initialised locals, return every result in order, and leave the caller's locals and operands
  untouched, however the callee returns (falling off the end, return, or a branch out of its body), and also when a host function
  calls back into the runtime before it returns. An indirect call traps unless the table entry is in range, non-null and of a structurally equal type, and unbounded recursion ends in
  a trap rather than a hang or corruption.''',
  ['programs', 'inputs'], 'all call graphs, signatures and arguments',
  'Examples call a handful of functions with fixed signatures; the ways a callee can return and the depth of the '
  'operand stack at a call multiply.',
  [CORE], [('call frames', 'pywasm/core.py Machine.evaluate_call / invocate'),
           ('indirect call type check', 'pywasm/core.py Machine.evaluate call_indirect')],
  ['results and side effects of exported functions'],
  [('frame stack', 'activations of active calls', 'pywasm/core.py Stack.frame')])
p('C08', 'Linear memory behaves as a bounds-checked little-endian byte array',
  '''After any sequence of loads, stores (every width, signedness, offset and SIMD lane form), size, grow, copy, fill,
  init and data.drop, memory holds exactly the bytes a little-endian byte-array model holds and each read returns the
  model's bytes. An access whose effective address range leaves the current memory (computed without wrap-around) or
  segment traps and changes nothing, and growing preserves contents, zero-fills new pages, respects the declared
  maximum and otherwise reports failure with -1.''',
  ['histories', 'inputs'], 'all operation sequences, addresses, offsets, lengths and values',
  'Examples never access memory out of range, overlap a copy, drop a segment or fail a grow.',
  [CORE], [('memory access helpers', 'pywasm/core.py Machine.evaluate_mem_load / evaluate_mem_save'),
           ('memory instance', 'pywasm/core.py MemInst'), ('bulk memory opcodes', 'pywasm/core.py Machine.evaluate')],
  ['values loaded, the exported memory, and traps'],
  [('memory instance', 'bytes and current size in pages', 'pywasm/core.py MemInst.data/size')])
p('C09', 'Tables and references behave as bounds-checked arrays of references',
  '''After any sequence of table get, set, size, grow, fill, copy, init and elem.drop over several tables of function
  and external references, each table holds exactly the references an array model holds, and null, function and
  external references stay distinguishable with their identity preserved. Out-of-range accesses, and uses of a dropped
  or too short segment, trap and change nothing; growth respects the declared maximum and reports failure with -1.''',
  ['histories', 'inputs'], 'all operation sequences, indices, lengths and references',
  'No running test uses table.grow/fill/copy/init or external references.',
  [CORE], [('table instance', 'pywasm/core.py TableInst'), ('table opcodes', 'pywasm/core.py Machine.evaluate')],
  ['results of exported functions and calls through the table'],
  [('table instance', 'references and current size', 'pywasm/core.py TableInst.elem/size')])
p('C10', 'Instantiation initialises a module in the specified order, or traps',
  '''Instantiating a valid module, decoded from bytes or read from a file, evaluates global initialisers (constants, references, imported globals), installs
  active element then data segments in order at their offsets, drops active and declarative segments but not passive
  ones, and finally runs the start function exactly once, giving the memory, tables and globals the specification
  defines. A segment that does not fit makes instantiation fail with the earlier segments' writes to imported memories
  and tables in place and the start function not run.''',
  ['programs', 'configurations'], 'all combinations of globals, segments (all encodings), offsets and start functions',
  'Examples have one or two active segments that always fit; failure order and segment flavours are never reached.',
  [CORE], [('instantiation', 'pywasm/core.py Machine.instance / allocate')],
  ['exported memory, tables and globals after instantiation, and instantiation failures'])
p('C11', 'Imports match by type and share one live object; instances are independent',
  '''Instantiation succeeds exactly when every import is supplied by an object of matching kind and type (function
  signature, global type and mutability, table and memory limits at their current size), and otherwise fails without
  running any of the module's code. Everything imported, re-exported or host-allocated is one shared object whose
  changes every holder sees, while instances share nothing else - in particular instantiating the same decoded module
  again yields a fresh, independent instance.''',
  ['configurations', 'histories'], 'all graphs of modules, import types and later mutations',
  'No running test links two wasm modules or instantiates one module twice.',
  [CORE], [('import matching', 'pywasm/core.py Machine.instance, Limits.suit'),
           ('runtime import table', 'pywasm/core.py Runtime.instance')],
  ['instantiation success or failure; globals, memories and tables seen from each instance'])
p('C12', 'A trap stops execution cleanly and leaves the runtime usable',
  '''When an invocation traps (or a host function raises), control returns to the caller as an exception, all side
  effects made before that point persist and none after it happen. Every later invocation or instantiation in the same
  runtime behaves exactly as if the operand, label and call stacks had been empty, however often and wherever earlier
  ones trapped, including traps during instantiation.''',
  ['fault_sequences', 'histories'], 'all sequences of trapping and normal calls over all trap causes and depths',
  'No running test traps and then uses the runtime again.',
  [CORE], [('stack discipline', 'pywasm/core.py Machine.invocate / instance')],
  ['results and state of calls following a trap'],
  [('machine stacks', 'operand, label and frame stacks', 'pywasm/core.py Stack')])
p('C13', 'Every valid binary encoding of a module decodes to the same behaviour',
  '''A module's meaning does not depend on how it is encoded: padded LEB128 integers, custom sections anywhere and in
  any number, empty or omitted sections, split or merged local declarations, the alternative encodings of element and
  data segments and of block types, and UTF-8 names all yield a module with the same exports and the same observable
  behaviour. Every instruction's immediates round-trip: constants, indices, memory arguments and lane numbers take
  effect exactly as encoded.''',
  ['inputs', 'programs'], 'all valid encodings of all modules',
  'Examples come from one compiler with minimal encodings.',
  [CORE, LEB, OPC], [('binary decoder', 'pywasm/core.py ModuleDesc.from_reader, Inst.from_reader'),
                     ('LEB128 reader', 'pywasm/leb128.py')],
  ['exports and results of the instantiated module'])
p('C14', 'Malformed or truncated binaries are rejected, never hang or half-load',
  '''Decoding a byte string either yields a module or raises, in time bounded by its length. It raises for every input
  whose magic or version is wrong, that is cut off inside a section or section header, that declares functions
  without their bodies, that contains an undefined opcode, value type, import, export or segment kind, or lane index, or whose
  names are not UTF-8; so a truncated module never silently decodes to one with different code.''',
  ['inputs'], 'all byte strings, in particular all truncations and single-byte corruptions of valid modules',
  'Only well-formed files are ever loaded by the tests.',
  [CORE, LEB], [('binary decoder', 'pywasm/core.py ModuleDesc.from_reader')],
  ['return or exception of the decoder'])
p('C15', 'LEB128 encoding and decoding are mutually inverse',
  '''Encoding any integer (non-negative for the unsigned form) as LEB128 yields the shortest standard byte sequence, and
  decoding that sequence or any padded equivalent returns the same integer. Reading from a stream consumes exactly the
  encoded bytes, reports how many, and raises when the stream ends early; encoding a negative number as unsigned is
  refused.''',
  ['inputs'], 'all integers and all byte sequences',
  'No running test calls the codec directly; the sign-bit boundary of every 7-bit group matters.',
  [LEB], [('codec', 'pywasm/leb128.py')], ['public encode, decode and decode_reader functions'])
p('C16', 'Values cross the host boundary unchanged in both directions',
  '''Arguments and results of exported functions, of host functions, and values of exported or host-allocated globals
  have the Python value that corresponds to their WebAssembly type: signed integers, floats (with f32 rounding), 16-byte
  vectors and references, in order and number, null references included. Exports are found by name and kind; asking for
  a missing or differently-kinded export, or passing the wrong number or type of arguments, raises without running any
  code.''',
  ['inputs', 'programs'], 'all signatures, values and export tables',
  'Examples pass small integers only.',
  [CORE], [('value conversion', 'pywasm/core.py ValInst.from_all / into_all'),
           ('export lookup', 'pywasm/core.py Runtime.invocate / exported_memory / exported_global')],
  ['Runtime.invocate results, host function arguments, exported globals'])
p('C17', 'The host sees and edits guest memory through a bounds-checked view',
  '''The host-side memory object returns and stores exactly the guest's bytes at every in-range address for every typed
  and block accessor, stays valid across growth from either side, and its writes are immediately visible to guest
  loads. An access that is not entirely inside the current memory raises and changes nothing; it never returns short
  data, resizes the memory or touches other bytes.''',
  ['inputs', 'histories'], 'all interleavings of host and guest accesses, addresses and lengths',
  'Examples read and write a few in-range addresses.',
  [CORE], [('memory instance accessors', 'pywasm/core.py MemInst get_*/put_*')],
  ['exported memory object and guest loads'])
p('C18', 'Programs compiled to WebAssembly compute what their source computes',
  '''A program compiled from C to WebAssembly by an independent compiler and run here returns the results and final data
  that the same program gives when compiled and run natively, for every program free of undefined behaviour and every
  input. This covers integer, floating-point, pointer, aggregate, function-pointer and recursive code at all
  optimisation levels, with and without SIMD and bulk-memory code generation.''',
  ['programs', 'inputs'], 'all well-defined source programs, compiler flags and inputs',
  'Ten fixed programs are run with one input each.',
  [CORE, ARITH], [('whole interpreter', 'pywasm/core.py')], ['results of exported functions and exported memory'])
p('C19', 'Execution is deterministic and unaffected by tracing or other instances',
  '''Running the same module with the same arguments and imports gives the same results, final state and traps every
  time: in a fresh runtime, in one that has already run other modules, interleaved with other instances, repeated in
  place from the same state, or with debug tracing switched on. Calling an exported function never alters the
  caller's argument objects or the decoded module.''',
  ['histories', 'configurations'], 'all programs and all interleavings with other work',
  'Each test runs one module once in a fresh process.',
  [CORE, 'pywasm/log.py'], [('store and stacks', 'pywasm/core.py Machine'), ('tracing', 'pywasm/log.py')],
  ['results and state of repeated runs'])
p('W01', 'Guests receive exactly the configured arguments and environment',
  '''For every list of argument strings and every environment mapping (any Unicode text, empty strings, any sizes), the
  counts and byte sizes reported to the guest are exactly those then written, each string arrives NUL-terminated and
  complete at the pointer recorded for it, in order, and no other guest byte is modified.''',
  ['configurations', 'inputs'], 'all argument lists, environments and buffer addresses',
  'No running test checks arguments; non-ASCII text never occurs.',
  [WASI], [('args_get, args_sizes_get, environ_get, environ_sizes_get', 'pywasm/wasi.py')], ['guest memory'])
p('W02', 'WASI file reads, writes, seeks and resizes behave like POSIX files',
  '''For every sequence of read, write, positional read/write, seek, tell, append, allocate, set-size, sync and
  set-flags calls on open regular files, with any scatter/gather lists, the bytes transferred, reported counts,
  offsets, error codes and final file contents equal those of a POSIX file model. Failed calls change neither the
  file nor its offset, and positional calls never move the offset.''',
  ['histories', 'inputs'], 'all operation sequences over several descriptors of one file',
  'No running test performs file I/O beyond printing.',
  [WASI], [('fd_read, fd_write, fd_pread, fd_pwrite, fd_seek, fd_tell, fd_allocate, fd_filestat_set_size',
            'pywasm/wasi.py')], ['guest memory, error codes, host file contents'])
p('W03', 'A guest can never reach the file system outside its preopened directories',
  '''Whatever paths, flags, link and rename sequences a guest uses, every WASI path call either acts on objects inside the
  directory its descriptor denotes or fails; nothing outside the preopened directories is read, listed, created,
  changed, linked, renamed, deleted or has its metadata disclosed. Absolute paths, dot-dot sequences, look-alike
  sibling names, and symbolic links (pre-existing or guest-made) are all covered, for every preopen name. Nor can a guest
  leave behind a symbolic link whose target is absolute or climbs out of the directory it is created in.''',
  ['inputs', 'histories', 'configurations'], 'all path strings, symlink layouts, operation sequences and preopen maps',
  'The official wasi suite is not runnable here and has only a few literal escape paths.',
  [WASI], [('path containment check', 'pywasm/wasi.py help_escp and the path_* functions')],
  ['host directories outside the sandbox, error codes, guest memory'])
p('W04', 'File operations require a valid descriptor holding the needed right',
  '''Every WASI call on a descriptor that was never opened or is closed fails with BADF, and a call whose required right
  the descriptor lacks fails with NOTCAPABLE, in both cases with no effect on files, guest memory or descriptors.
  Rights are reported exactly, can only shrink, and a newly opened descriptor never holds a right its parent directory
  cannot pass on, nor one that
  has no meaning for what it is (seeking a directory, path calls on a file).''',
  ['histories', 'inputs'], 'all descriptors, rights masks and operations, in any order',
  'No running test restricts rights.',
  [WASI], [('help_badf, help_perm', 'pywasm/wasi.py'), ('fd_fdstat_set_rights, path_open', 'pywasm/wasi.py')],
  ['error codes and absence of effects'])
p('W05', 'Path operations change the file tree like POSIX and report errors as codes',
  '''Creating, opening (with every create/exclusive/truncate/directory/follow flag combination), renaming, linking,
  symlinking, reading links, unlinking and removing directories inside a preopened directory has exactly the effect
  and outcome of the corresponding POSIX call, with failures reported as the matching WASI error code. No guest path
  operation ever surfaces as a host exception, and a failed call leaves the tree unchanged.''',
  ['histories', 'inputs'], 'all operation sequences over all small directory trees and names',
  'No running test performs path operations.',
  [WASI], [('path_* functions', 'pywasm/wasi.py')], ['host directory tree, error codes'])
p('W06', 'Directory listing is complete, exact and independent of buffer size',
  '''Reading a directory with any sequence of buffer sizes, resuming from the last complete entry's cookie, yields each
  entry ("." and ".." included) exactly once with its full name in bytes, its inode and its own file type, for any
  file names and any mixture of entry kinds, dangling symbolic links included. A call fills at most the given buffer,
  reports fewer bytes than the buffer only at the end of the directory, and any returned cookie can be used to
  resume.''',
  ['inputs', 'histories'], 'all directory contents and buffer size sequences',
  'No running test lists a directory.',
  [WASI], [('fd_readdir', 'pywasm/wasi.py')], ['guest buffer contents across calls'])
p('W07', 'Descriptor numbers map to the right open object from open to close',
  '''Across any sequence of open, close, renumber, duplicate-closing and I/O calls, each live descriptor refers to exactly
  the object it was opened or renumbered to, with its own flags, rights and offset, closed ones are unusable, standard
  streams and host-provided pipes keep working under whatever number they have, and preopens report their configured
  names. Host descriptors are never leaked, closed twice or closed while still in use, and all are closed when the
  program ends.''',
  ['histories'], 'all sequences of descriptor operations',
  'No running test opens more than the standard streams.',
  [WASI], [('descriptor table', 'pywasm/wasi.py Preview1.fd, fd_close, fd_renumber, path_open, main')],
  ['error codes, data transferred, host descriptor table'],
  [('descriptor table', 'list of File records indexed by guest fd', 'pywasm/wasi.py Preview1.fd')])
p('W08', 'File metadata is reported and timestamps are set exactly',
  '''File attributes reported through a descriptor or a path (type, size, link count, inode, timestamps) equal those of
  the object they denote at that moment, following or not following a final symbolic link as asked, even after the
  file was renamed or unlinked. Setting times changes exactly the requested timestamps to the given values or to the
  current time and leaves the other untouched.''',
  ['histories', 'inputs'], 'all objects, flags, timestamps and preceding renames or unlinks',
  'No running test queries metadata.',
  [WASI], [('fd_filestat_get/set_times, path_filestat_get/set_times, fd_fdstat_get', 'pywasm/wasi.py')],
  ['guest memory, host stat'])
p('W09', 'Clocks, polling, randomness and signals follow the WASI contract',
  '''Clock readings equal the host clock of that kind and monotonic time never decreases; unknown clocks are refused.
  Polling returns, for every mix of relative and absolute clock subscriptions and readable or writable descriptors,
  exactly the ready subscriptions with their user data and type and never before a due time or later than needed;
  random bytes fill exactly the requested range, and yielding or raising unsupported signals has the documented
  code.''',
  ['inputs', 'configurations'], 'all subscription sets, timeouts, buffers and clock ids',
  'No running test polls or reads clocks.',
  [WASI], [('clock_*, poll_oneoff, random_get, proc_raise, sched_yield', 'pywasm/wasi.py')],
  ['guest memory, error codes, elapsed host time'])
p('W10', 'Socket calls move exactly the bytes and connections of the underlying socket',
  '''For every sequence of accept, send, receive (plain, peek, wait-all) and shutdown on a host-provided stream socket,
  with any scatter/gather lists, bytes arrive complete, in order and only inside the given buffers, peeking does not
  consume, and counts and flags are exact. Accepted connections become usable descriptors; calls on non-sockets, bad
  descriptors or dead peers give error codes rather than host exceptions.''',
  ['histories', 'inputs'], 'all socket operation sequences and buffer lists',
  'No running test uses sockets.',
  [WASI], [('sock_accept, sock_recv, sock_send, sock_shutdown', 'pywasm/wasi.py')],
  ['guest memory, peer socket, error codes'])
p('W11', 'WASI calls never touch memory outside the buffers the guest named',
  '''For every WASI call and any pointers and lengths (valid, overlapping the end of memory, or beyond it, up to 2^32-1),
  guest memory changes only inside the output buffers the call documents, and the memory never changes size. If a
  buffer the call has to access does not lie inside the guest memory the call fails or raises without reading or writing any other address.''',
  ['inputs'], 'all WASI calls x all pointer and length values',
  'Tests only pass compiler-generated valid pointers.',
  [WASI, CORE], [('memory accessors', 'pywasm/core.py MemInst'), ('all WASI functions', 'pywasm/wasi.py')],
  ['whole guest memory before and after the call'])
p('W12', 'Programs run as commands end with the right exit code and output',
  '''Running a module as a WASI command executes its start routine once and returns the code given to process exit (0 on
  normal return) from any call depth, with no guest code run afterwards, captured standard output and error holding
  exactly what the guest wrote and standard input delivered as given. A trap propagates as an exception rather than an
  exit code, and the runtime stays usable in every case.''',
  ['programs', 'inputs'], 'all exit codes, call depths, output sequences and trap points',
  'The two wasi tests run one program each.',
  [WASI], [('main, proc_exit', 'pywasm/wasi.py')], ['return value, captured pipes, later calls'])
p('W13', 'The command line runs modules with the given function, arguments and sandbox',
  '''The command-line tool invokes the requested exported function with the given arguments converted to its parameter
  types and prints its results, or runs the module as a WASI command with exactly the given arguments, environment and
  directory mappings, passing standard streams through and exiting with the guest's code. A wrong argument count,
  missing export or trap ends in a non-zero status.''',
  ['configurations', 'inputs'], 'all option combinations, values and modules',
  'The two command tests run fixed command lines.',
  [MAIN, WASI], [('argument parsing', 'pywasm/__main__.py')], ['process output and exit status'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for e in P:
        f.write(json.dumps(e) + '\n')
print(len(P))
