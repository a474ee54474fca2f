#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
OUT = []
TESTED = {
  'none': "The package's tests are not part of the runnable baseline here and each of them samples a few calls; ",
  'some': "The baseline tests exercise a handful of fixed inputs; ",
}
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    
    if len(title) > 80: print(id, len(title), file=__import__('sys').stderr)
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    OUT.append(d)

T='ecl_threads/'; C='ecl_containers/include/ecl/containers/'; D='ecl_devices/'; S='ecl_streams/'
CV='ecl_converters/include/ecl/converters/'; F='ecl_formatters/'; G='ecl_geometry/'; TM='ecl_time/'
CL='ecl_command_line/include/ecl/command_line/'; U='ecl_utilities/include/ecl/utilities/'

# ---------------------------------------------------------------- threads
P('T01','Mutex gives mutual exclusion, timed and non-blocking attempts, no lost wakeup',
  "At any moment at most one thread holds a mutex; a blocked lock is granted once the holder unlocks, and a sequence of lock/unlock calls that pairs up never deadlocks. "
  "A non-blocking attempt succeeds exactly when the mutex is free and never blocks; a timed attempt succeeds if the mutex is free or is released before the given duration (measured from the call) has elapsed, and otherwise fails after that duration and not before. "
  "A failed attempt leaves the mutex as it was, and once every holder has unlocked, the mutex reports itself as not locked.",
  ['schedules','inputs'],'all interleavings of 2-3 threads of up to 3 mutex operations each, all release times relative to the timeout',
  "the one threading test starts free-running threads once; the failing interleaving or release time is one of thousands and the scheduler never picks it",
  [T+'include/ecl/threads/mutex_pos.hpp',T+'src/lib/mutex_pos.cpp'],
  [('Mutex::lock/unlock/trylock over pthread mutexes',T+'src/lib/mutex_pos.cpp'),('lock counter',T+'include/ecl/threads/mutex_pos.hpp')],
  ['return values of trylock, locked(), critical section occupancy'])
P('T02','Thread runs its function once; start, join, cancel, destruction are safe',
  "A started thread executes the supplied function (free, bound, member or copied/referenced function object) exactly once with its argument intact and on a stack of the size asked for, joining returns only after that function has ended, and joining more than once or never having started is harmless. Starting an already started thread object is refused with a busy error, a failure to create the thread is reported and leaves an object that can be started again or destroyed, and destroying or letting go of the thread object at any moment neither crashes, nor leaks, nor disturbs the running function. A cancel request ends the function at its next cancellation point and releases everything the thread owned, the object reports a running thread exactly while the function has not ended, and no interleaving of these operations with the thread's own progress touches released memory.",
  ['schedules','fault_sequences','histories'],'all interleavings of owner operations (start, join, cancel, destroy) with the progress of the thread, and a failure of any system call used to start it',
  "a test sees one interleaving of the owner with the thread per run, and never sees thread creation fail",
  [T+'include/ecl/threads/thread_pos.hpp',T+'src/lib/thread_pos.cpp',T+'include/ecl/threads/thread_exceptions_pos.hpp'],
  [('ThreadTask entry point and ownership',T+'include/ecl/threads/thread_pos.hpp'),('start/join/cancel',T+'src/lib/thread_pos.cpp')])
P('T03','A threadable object runs at most one background execution at a time',
  'Starting a threadable object runs its body in the background exactly once per accepted start; a start request made while a previous run is still active is refused and reported as such, also when several threads request it at the same moment, and a run that could not be created is not reported as started and leaves the object startable. Once a run has completed the object can be started again or destroyed; its running status is true from an accepted start until the body has returned and false when no run is active.',
  ['schedules'],'all interleavings of up to two starter threads and the background runs',
  "two starters colliding inside the start request needs one specific interleaving",
  [T+'include/ecl/threads/threadable.hpp',U+'parameter.hpp'],
  [('isRunning parameter and start/execute',T+'include/ecl/threads/threadable.hpp')])
P('T04','Requested scheduling priorities map to the right policy and report failure',
  "Setting a thread priority or a process priority asks the operating system for the scheduling policy class documented for that level (real-time levels round-robin or fifo, ordered by level and inside the system's range; default and below the normal scheduler with nice values ordered by level), and reading it back reports the level that was set. "
  "When the operating system refuses any step, the call reports the failure instead of claiming success.",
  ['inputs','fault_sequences'],'all priority levels, all orderings of pairs, all system answers (success or each documented errno) at each system call',
  "real-time priorities are refused for ordinary users, so tests see only one answer of the operating system",
  [T+'include/ecl/threads/priority_pos.hpp',T+'src/lib/priority_pos.cpp',T+'include/ecl/threads/priority_common.hpp'],
  [('set_priority / get_priority',T+'src/lib/priority_pos.cpp'),('linux priority level mapping',T+'include/ecl/threads/priority_pos.hpp')])
# ---------------------------------------------------------------- sigslots
P('S01','Signals reach exactly the slots connected through a topic, in every history',
  "Emitting a signal calls every slot that is connected at that time to a topic the signal is connected to, exactly once per shared topic and with the emitted data, and calls no other slot. "
  "This holds after any history of connecting, disconnecting from one or all topics, reconnecting, copying, assigning and destroying signals and slots, in any order of connection, and no such history leaves anything behind that touches a destroyed endpoint. "
  "Disconnecting from a topic nobody is connected to is harmless, and topics with different data types are independent even if they share a name.",
  ['histories'],'all histories up to a depth over two signals, two slots, two topics and both data-carrying and void signals',
  "correctness depends on the connection history; tests follow one script",
  ['ecl_sigslots/include/ecl/sigslots/'+f for f in ('manager.hpp','signal.hpp','sigslot.hpp','slot.hpp','topic.hpp')],
  [('topic registry','ecl_sigslots/include/ecl/sigslots/manager.hpp'),('SigSlot connection bookkeeping','ecl_sigslots/include/ecl/sigslots/sigslot.hpp')])
P('S02','Concurrent emission, connection and destruction of signals and slots is safe',
  "When several threads emit, each emission runs the slot's function with the data of that emission, exactly once for every slot that stays connected throughout. A slot whose destruction has returned is not running and is never called again, destruction waits for calls under way, and an emission that starts after a slot's disconnection has returned does not call it. No interleaving of emissions with connects, disconnects and destruction of other endpoints deadlocks, loses an emission to a permanently connected slot, or touches released memory.",
  ['schedules'],'all interleavings with bounded preemptions of two to three threads doing one or two operations each',
  "needs particular interleavings of emission with (dis)connection",
  ['ecl_sigslots/include/ecl/sigslots/'+f for f in ('manager.hpp','sigslot.hpp','slot.hpp','topic.hpp')],
  [('SigSlot mutex / processing count','ecl_sigslots/include/ecl/sigslots/sigslot.hpp')])
# ---------------------------------------------------------------- containers
P('K01','Arrays are values: every history of operations equals a plain sequence',
  "A fixed or dynamic array behaves as a sequence of elements under any history of construction, comma/list initialisation, element access, iteration, resizing, copying, assignment (including to itself) and clearing: copies are independent of the original, sizes and iterators agree, and no operation reads or writes outside the stored elements or leaks. "
  "Checked access (at) to any index outside the array, and list-initialising with more values than the array holds, is reported as an error and never alters memory outside the array, in both the plain and the buffer-overrun-checked variants; in the checked variants a write past either end is detected by the overrun query and an untouched array reports no overrun.",
  ['histories','inputs'],'all operation histories up to a depth on small arrays, all indices around the bounds, both memory-check variants',
  "tests run one script on one size",
  [C+'array/'+f for f in ('array_no_mem_check.hpp','array_mem_check.hpp','array_dynamic_no_mem_check.hpp','array_dynamic_mem_check.hpp')]+[C+'initialiser.hpp'],
  [('Array<T,N,Check>',C+'array/array_mem_check.hpp'),('dynamic storage',C+'array/array_dynamic_no_mem_check.hpp'),('BoundedListInitialiser',C+'initialiser.hpp')])
P('K02','A stencil is a bounded window that never reaches outside its range',
  "A stencil of a container or C array presents exactly the elements of the window it was given, in order, as a view: writes through it are seen in the underlying container and the reverse, and re-windowing moves it to exactly the requested window. "
  "Requesting a window that does not lie inside the underlying range, checked access outside the window, and list-initialising with more values than the window holds are reported as errors, and every index inside the window is accepted.",
  ['histories','inputs'],'all windows over small ranges, all indices around the bounds, for generic and pointer-based (signed and unsigned byte) stencils',
  "tests use one window in the middle of one array; the boundary windows are never visited",
  [C+'stencil/stencil.hpp',C+'stencil/specialisations.hpp'],
  [('Stencil window and resettlement',C+'stencil/stencil.hpp')])
P('K03','The cyclic buffer returns the last N items in order for every history',
  "After any history of pushes, fills and resizes, a cyclic buffer of capacity N (at least one) presents exactly the N most recent values in order of age (the fill value standing for entries never pushed), whatever the number of wrap-arounds, and copies are independent. "
  "No index or history makes it touch memory outside its storage.",
  ['histories'],'all histories of push/fill/resize/copy up to a depth for capacities 1 to 4, every index',
  "wrap-around position and resize interact; tests follow one script",
  [C+'fifo.hpp'],[('FiFo running index',C+'fifo.hpp')])
P('K04','Push-and-pop is a first-in first-out queue that keeps the newest items',
  "Any history of pushing, popping, filling, clearing and resizing of a push-and-pop buffer of size N behaves as a first-in first-out queue: popping returns the oldest remaining element, the size is the number of elements held, indexing counts from the oldest, and pushing into a full buffer discards the oldest. "
  "Popping an empty buffer is reported as an error where checking is enabled and nothing touches memory outside the storage.",
  ['histories'],'all histories up to a depth for capacities 1 to 4, fixed and dynamic',
  "leader/follower wrap-around arithmetic only fails at particular push/pop offsets",
  [C+'push_and_pop/push_and_pop_dynamic.hpp',C+'push_and_pop/push_and_pop_fixed.hpp'],
  [('leader/follower indices',C+'push_and_pop/push_and_pop_dynamic.hpp')])
# ---------------------------------------------------------------- converters / formatters
P('V01','Numbers convert to text exactly, in bounded buffers',
  "Converting any integer (character types included) to a character string yields exactly its decimal representation, and a boolean true or false, for every value of every integer type including the extreme ones, as checked against the standard library. "
  "With a user supplied buffer nothing is written outside it and a buffer that is too small is reported as an error; with an internal buffer the result is complete; conversions between digits and characters accept exactly the valid digits, and text converts to the int it denotes or reports an error.",
  ['inputs'],'all 8 and 16 bit values, boundary-closed sets of wider values, all buffer sizes from 0 to the needed size plus two',
  "the value/buffer size boundary is one case in billions",
  [CV+f for f in ('char_strings.hpp','char.hpp','integers.hpp','string.hpp','converter.hpp')],
  [('Converter<char*,T>',CV+'char_strings.hpp')])
P('V02','Integers and byte arrays convert into one another without loss',
  "Converting an integer of any width to bytes and back yields the same integer, the byte order is least significant first, every byte of the destination is written and none outside it. "
  "A destination whose size is not that of the type, or a source longer than the type, is reported as an error rather than read or written past (a shorter source denotes the value of its bytes), and hexadecimal text for a byte sequence converts into exactly those bytes, with malformed text reported as an error.",
  ['inputs'],'all byte values in all positions for every supported type and container, all lengths around the type size, all short hex strings over a small alphabet',
  "sign extension and width bugs appear only for particular byte patterns",
  [CV+'to_byte_array.hpp',CV+'from_byte_array.hpp',C+'array/converters.hpp',C+'stencil/converters.hpp'],
  [('ToByteArray/FromByteArray',CV+'to_byte_array.hpp')])
P('V03','Floating point numbers convert to text with the precision asked for',
  "Converting a float or double to a character string yields its fixed notation with exactly the number of decimal places asked for (six when none or a negative number is asked for, twenty when more are), correctly rounded, for zeros, negative, subnormal, very large and non-finite values, whatever was converted by the same object before and with whatever precision. "
  "Nothing is written outside the buffer, internal or supplied, and a text that does not fit is truncated to a proper prefix of the right one that fills the buffer.",
  ['inputs','histories'],'all precisions from below zero to far above twenty over a boundary-closed set of values, all sequences of three conversions over all precisions, all buffer sizes around the needed one',
  "the format is built digit by digit from the precision and kept between calls, so only particular precisions and orders go wrong",
  [CV+'char_strings.hpp',CV+'converter.hpp'],
  [('format_specifier',CV+'char_strings.hpp')])
P('V05','Release builds convert alike and report failures through error()',
  "In a release build (NDEBUG) no conversion throws; each gives exactly the value the debug build gives when that succeeds, and where the debug build throws it reports the same flag through error() and returns the documented failure value (INT_MIN for text to int, -1 for a character to int, no bytes for malformed text, an untouched destination for a size mismatch). "
  "error() tells about the last conversion of the object only, and the grouped converters (Converter<int> and its like) offer it too; an internal buffer that cannot be allocated is reported as a memory error.",
  ['inputs','histories','builds'],'the conversions of V01-V03 built with and without debug checks side by side: all short texts over an alphabet, all byte values, boundary values, all sizes around the needed one, all pairs of conversions on one object',
  "the tests never look at error(), and each of them runs in one build only",
  [CV+f for f in ('converter.hpp','integers.hpp','char.hpp','to_byte_array.hpp','from_byte_array.hpp','char_strings.hpp','string.hpp')],
  [('ConverterBase::error',CV+'converter.hpp')])
P('F01','Integer formatters print the exact value in the requested width, base, alignment',
  "For every integer value, width, alignment and base (decimal, hexadecimal, binary), the formatted text is the exact value padded with spaces to the width on the requested side, never truncated if it is wider. "
  "A one-off format given with the value applies to that output only and the permanent format is unchanged afterwards; a formatter used without a value reports an error and any history of format changes and outputs on several formatter objects never lets one affect another.",
  ['inputs','histories'],'all combinations of type, boundary values, widths 0..12, alignments, bases, and all short histories of permanent/temporary format changes',
  "the product of value, width, base and temporary-format history is never covered by samples",
  [F+'include/ecl/formatters/number.hpp',F+'include/ecl/formatters/common.hpp'],
  [('Format<Number>',F+'include/ecl/formatters/number.hpp')])
P('F02','Floating point and string formatters print the requested value and layout',
  "Formatted floats show the value in fixed notation rounded to the requested number of digits (up to twenty) after the point, padded on the requested side to the requested width, agreeing with the standard library for every magnitude; formatted strings show the complete text padded on the requested side. "
  "One-off formats apply once and leave the permanent format in force, and two formatters or two pending values never influence each other.",
  ['inputs','histories'],'value set spanning all magnitudes and signs x precision x width x alignment, and all short format histories',
  "truncation and precision digit bugs appear only for large magnitudes or two-digit precisions",
  [F+'include/ecl/formatters/floats.hpp',F+'include/ecl/formatters/strings.hpp',F+'src/lib/strings.cpp'],
  [('FormatFloat',F+'include/ecl/formatters/floats.hpp'),('Format<string>',F+'src/lib/strings.cpp')])
P('F03','Container and matrix formatters print every element once, in order',
  "Formatting an array, stencil, queue or matrix prints each element exactly once, in order, each with the element formatting (width, precision, base) requested, one row per line for matrices, and reads nothing outside the container. "
  "An empty container prints no element; the one-off format applies to that print only.",
  ['inputs','histories'],'all container kinds with sizes 0..4, element values, widths and precisions, permanent/one-off histories',
  "sizes 0 and 1 and repeated use are not sampled",
  [C+'array/formatters.hpp',C+'common/formatters.hpp',C+'stencil/formatters.hpp',C+'push_and_pop/formatters.hpp','ecl_linear_algebra/include/ecl/linear_algebra/eigen/formatters.hpp'],
  [('container formatters',C+'common/formatters.hpp')])
# ---------------------------------------------------------------- devices / streams
P('D01','Text written to a stream reaches the device exactly, in order',
  "Everything inserted into an output text stream (characters, strings, booleans, integers of every type, floats, manipulators and formatted values) arrives at the device as the documented textual representation, in order, complete and without extra bytes, for every value and every interleaving of kinds and flushes. "
  "Output on one stream is never altered by output on another.",
  ['inputs','histories'],'all short sequences over an alphabet of insertions with boundary values, on every device kind',
  "one example per type is run",
  [S+'include/ecl/streams/text_streams/output_text_stream.hpp',S+'include/ecl/streams/text_streams/base_text_stream.hpp',S+'include/ecl/streams/manipulators/end_of_line.hpp']+[S+'include/ecl/streams/'+f for f in ('string_stream.hpp','console_streams.hpp','manipulators/clear_screen.hpp','manipulators/manipulator.hpp')]+[S+'src/lib/manipulators.cpp'],
  [('OutputTextStream insertion operators',S+'include/ecl/streams/text_streams/output_text_stream.hpp')])
P('D02','Values read from a text stream are those the text denotes',
  "Extracting a value from an input text stream yields exactly the value the next token (separated by blanks or newlines) denotes (decimal or hexadecimal integers over the full range of the type, floats, booleans, characters, words), and consecutive extractions consume consecutive tokens, so writing values and reading them back returns the same values. "
  "Text that does not start with such a value and values that do not fit the type are reported as a failure and leave the variable unchanged; end of input is handled for a token that ends exactly there.",
  ['inputs','histories'],'all short texts over a token alphabet, boundary values of all integer types, write/read round trips',
  "boundary values and end-of-input positions are single points",
  [S+'include/ecl/streams/text_streams/input_text_stream.hpp'],
  [('InputTextStream extraction operators',S+'include/ecl/streams/text_streams/input_text_stream.hpp')])
P('D03','The character buffer of stream devices is a bounded faithful queue',
  "The character buffer used by buffered devices stores appended bytes in order up to its capacity, reports how many it accepted and whether it is full, and hands out exactly the stored bytes, in any history of appends and clears. "
  "It never writes outside its storage, whatever the length of an append.",
  ['histories','inputs'],'all histories of append/clear with lengths around the remaining capacity',
  "only fill levels at the boundary matter",
  [D+'include/ecl/devices/detail/character_buffer.hpp',D+'src/lib/detail/character_buffer.cpp'],
  [('CharBuffer',D+'src/lib/detail/character_buffer.cpp')])
P('D04','The string device returns exactly the bytes written, for any history',
  "For every history of writes, reads, peeks and clears, a string device yields the written bytes in order exactly once, reports the number of unread bytes correctly, and its textual content is what has been written, however much is written. "
  "Reading more than is available returns only what is available and memory outside the device's buffer is never touched.",
  ['histories'],'all histories of write/read/peek/clear up to a depth, with write sizes around every growth boundary',
  "tests write a few dozen bytes and never reach the growth boundary",
  [D+'include/ecl/devices/string.hpp',D+'src/lib/string.cpp'],
  [('String growth',D+'src/lib/string.cpp')])
P('D05','An output file holds exactly the acknowledged writes in order',
  "Opening a file in New mode starts from an empty file and in Append mode keeps its content; every acknowledged write is in the file, in order, exactly once and complete, after a flush or close, for every split of the data over writes. "
  "Every failure of the operating system to open, write, flush or close is reported and leaves the object in a consistent state: never closed twice, never leaking the descriptor, and usable again after reopening; using a closed file is reported as an error.",
  ['histories','fault_sequences'],'all histories of open/write/flush/close/reopen up to a depth with a fault at any system call',
  "no test makes a write, flush or close fail, or opens an existing longer file",
  [D+'include/ecl/devices/ofile_pos.hpp',D+'src/lib/ofile_pos.cpp',D+'src/lib/detail/exception_handler_pos.cpp'],
  [('OFile',D+'src/lib/ofile_pos.cpp')])
P('D06','Shared file handles share one underlying file safely in every history',
  "Several handles on the same file name write into one underlying file: the data each handle flushes appears exactly once, in that handle's order and contiguous, not mixed with another handle's. "
  "The underlying file is opened once and closed when the last handle is closed, in every order of opening and closing, and an open failure in one handle leaves all other handles and later opens working.",
  ['histories','fault_sequences'],'all open/write/flush/close histories of three handles on two names; one failing call at any point',
  "open failure followed by further use, and the orders of closing, are never tested",
  [D+'include/ecl/devices/shared_file.hpp',D+'src/lib/shared_file.cpp'],
  [('SharedFileManager reference counting',D+'src/lib/shared_file.cpp')])
P('D07','The serial device transfers bytes faithfully and configures the port as asked',
  "Opening a serial port configures exactly the requested speed, data bits, stop bits and parity, or reports an error for combinations that are not supported and for any failing system call needed to configure it, releasing the descriptor. Opening never waits for a modem's carrier, and a port one program has open cannot be opened by another until it is closed. In each read mode (blocking, timeout, non-blocking) a read returns bytes that actually arrived, in order, never more than requested, and returns without data only as that mode documents (timeouts up to 25.5 seconds); the count of waiting bytes is the real one; and write hands bytes over in order and reports how many were taken.",
  ['inputs','fault_sequences','histories'],'all parameter combinations, all environment answers (partial reads, delays, errors) to each system call up to a bound, over a simulated port',
  "tests need two wired serial ports and are not runnable",
  [D+'include/ecl/devices/serial_pos.hpp',D+'src/lib/serial_pos.cpp',D+'include/ecl/devices/serial_parameters.hpp'],
  [('Serial::open termios setup',D+'src/lib/serial_pos.cpp')])
P('D08','Sockets deliver bytes in order and report connection state truthfully',
  'Between a socket server and client, bytes are delivered in order without loss or duplication: read removes and peek does not remove data, remaining counts waiting bytes, and the connection status after each call reflects what happened (connected, hung up by the other side, failed). Every failing system call while opening, connecting, listening, reading or writing is reported as an error or a failed status, does not leak the descriptor, and leaves the object closable and reusable; a server can be opened on its port again right after it was closed.',
  ['fault_sequences','histories'],'all histories of read/peek/write/close over a simulated peer with partial transfers, hang-ups and errors at any call',
  "real sockets give one benign answer per call on loopback",
  [D+'include/ecl/devices/socket_client_pos.hpp',D+'src/lib/socket_client_pos.cpp',D+'include/ecl/devices/socket_server_pos.hpp',D+'src/lib/socket_server_pos.cpp',D+'include/ecl/devices/detail/socket_error_handler_pos.hpp'],
  [('SocketServer/SocketClient',D+'src/lib/socket_server_pos.cpp')])
P('D09','Console devices pass bytes through unchanged',
  "Writing to the standard output or error console devices emits exactly the given bytes in order after a flush, also when the amount exceeds the internal buffer, and a failing write is reported. Reading from the input console yields exactly the bytes provided, in order, whatever their values (a block read returns at most one line and leaves the rest for later reads), and the end of the input is reported without inventing data.",
  ['inputs','histories'],'all short byte strings over an alphabet that includes NUL, 0xFF, newline, and lengths around the buffer capacity',
  "special byte values and the buffer boundary are not sampled",
  [D+'include/ecl/devices/console.hpp',D+'src/lib/console.cpp'],
  [('OConsole/EConsole/IConsole',D+'include/ecl/devices/console.hpp')])
P('L01','The log stream writes complete, correctly headed lines for every enabled mode',
  "Every LOG statement in a mode that is enabled writes exactly one prefix (time stamp and the header associated with that mode, each if enabled for the stream, then a colon) followed by the inserted values to the log file, in order; in a mode that is not enabled it writes nothing and evaluates none of the inserted expressions. "
  "Changing the enabled modes, their headers or the prefix parts affects only subsequent statements, the stamp is the current system time, and no statement is lost, duplicated or altered, also with several log streams on one file.",
  ['histories','configurations'],'all configurations of prefix parts and modes, all short histories of statements on two streams',
  "one configuration is sampled",
  [S+'include/ecl/streams/log_stream.hpp',S+'src/lib/log_stream.cpp'],
  [('LogStream',S+'include/ecl/streams/log_stream.hpp')])
P('D10','Shared file handles in several threads keep whole records and one file',
  "When several threads open, write, flush and close handles on the same file name, they share one underlying file that is opened once while anybody uses it and closed with the last handle. In every interleaving the data of each flush is in the file exactly once, contiguous and in the order of its handle, no handle is refused or loses its file because another opens or closes at the same moment, and nothing deadlocks, leaks or touches released memory.",
  ['schedules'],'all interleavings with bounded preemptions of two or three threads that open, write, flush, close and reopen handles',
  "two handles opening or closing at the same moment need one specific interleaving",
  [D+'include/ecl/devices/shared_file.hpp',D+'src/lib/shared_file.cpp'],
  [('SharedFileManager under its mutex',D+'src/lib/shared_file.cpp')])
P('D11','Streams open the device they name and carry text over it whole',
  "Constructing a file, shared file, serial or socket stream with a name and parameters opens exactly that device with those parameters (the documented defaults for those left out), or reports the failure by an exception or the stream's error status and keeps no descriptor; a stream that is not open refuses input and output. "
  "Over serial ports and sockets the text inserted is sent whole and in order even when the device takes only part of it at a time, tokens that have arrived are extracted with their values however they are split over time, and after every operation the stream's status is that of this operation: a refused transfer, a broken connection, the end of the data or a timeout is reported and a success is not called a failure.",
  ['fault_sequences','histories'],'all parameters of every stream constructor with any one call refused; all histories of insertions and extractions over a simulated port or peer with one refusal or partial transfer anywhere',
  "real devices on a test machine accept everything at once; a short write or refused call is one in thousands",
  [S+'include/ecl/streams/'+f for f in ('serial_stream.hpp','socket_streams.hpp','file_streams.hpp','shared_file_stream.hpp','text_stream.hpp','text_streams/base_text_stream.hpp','text_streams/output_text_stream.hpp','text_streams/input_text_stream.hpp')],
  [('stream constructors',S+'include/ecl/streams/serial_stream.hpp'),('OutputTextStream::write',S+'include/ecl/streams/text_streams/output_text_stream.hpp')])
# ---------------------------------------------------------------- ipc
P('I01','A named semaphore excludes across processes and never over-counts',
  "A semaphore admits at most one holder at a time between all users of the name, in every interleaving; unlocking, however often and by however many users, never makes room for two holders. "
  "A non-blocking attempt succeeds iff the semaphore is free; a timed attempt succeeds if it is released before the duration has elapsed since the call, and otherwise fails after it; every refusal or failure by the operating system, including an interrupted wait, is never mistaken for having obtained the lock.",
  ['schedules','fault_sequences','inputs'],'all interleavings of 2-3 users over lock/trylock/timed/unlock; all clock fractions around second boundaries; each system call failing',
  "processes race freely in tests; the wrap of the nanosecond field and interrupted waits are single points",
  ['ecl_ipc/include/ecl/ipc/semaphore_pos.hpp','ecl_ipc/src/lib/semaphore_pos.cpp'],
  [('Semaphore over sem_open','ecl_ipc/src/lib/semaphore_pos.cpp')])
P('I02','Shared memory gives every opener the same object, initialised once',
  "All holders of a shared memory name see one object: the first creates and initialises it, later ones attach to its current contents without altering them, and writes by one are seen by all. "
  "Only the creator removes the name when it goes away, removal by the creator does not pull the object from under those attached, and any failure of a system call is reported as an error that neither leaks nor removes someone else's segment.",
  ['histories','fault_sequences'],'all histories of open/write/close by up to three holders with a fault at any system call',
  "tests open once or twice with no failure",
  ['ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp','ecl_ipc/src/lib/shared_memory_pos.cpp'],
  [('SharedMemoryBase::open','ecl_ipc/src/lib/shared_memory_pos.cpp')])
# ---------------------------------------------------------------- time
P('M01','Time stamps are exact, normalised and totally ordered',
  "Sums, differences and comparisons of time stamps agree with exact arithmetic on nanoseconds for all operands of either sign, constant or not, and the stored nanosecond part always lies below one second and shares the sign of the seconds, with the same instant denoted. Conversions from and to doubles and to text denote the same instant to the type's resolution, components of opposite sign are rejected, and stamping reads the system clock exactly or reports why it cannot.",
  ['inputs'],'all pairs from a set of values closed around zero and carry boundaries, all operators and short chains of operators',
  "carry and borrow bugs sit at nanosecond boundaries and sign mixes",
  [TM+'include/ecl/time/timestamp_base.hpp',TM+'src/lib/timestamp_base.cpp',TM+'include/ecl/time/timestamp_pos.hpp',TM+'src/lib/timestamp_pos.cpp'],
  [('TimeStampBase arithmetic',TM+'src/lib/timestamp_base.cpp')])
P('M02','Watches and frequency monitors measure the time that passed',
  "A stop watch's total is the time since its start or restart and its splits are consecutive and sum to the total; a CPU watch does the same with the processor time of the process; the average, variance and standard deviation of time data agree with the samples added since it was cleared; the frequency monitor, once per elapsed window of the clock it was given, reports the rate and the smallest and largest interval of the updates in that window (intervals counted from the previous update or construction), the connection state and the last update. This holds in every history of splits, elapsed queries, restarts, updates and analyses whatever the clock readings.",
  ['histories','inputs'],'all histories up to a depth over a controlled clock with advances across second boundaries',
  "with a real clock a test can only check rough magnitudes",
  [TM+'include/ecl/time/stopwatch.hpp',TM+'src/lib/stopwatch.cpp',TM+'src/lib/cpuwatch_rt.cpp',TM+'src/lib/frequency.cpp',TM+'src/lib/time_data.cpp']+[TM+'include/ecl/time/frequency.hpp',TM+'include/ecl/time/time_data.hpp']+[TM+'include/ecl/time/cpuwatch_rt.hpp'],
  [('StopWatch/CpuWatch/FrequencyMonitor',TM+'src/lib/stopwatch.cpp')])
P('M03','Sleeps last the requested time and periodic snoozes keep their schedule',
  "Every sleep request (seconds, milli-, micro-, nanoseconds, durations) asks the system to sleep for exactly the requested time, for every value including those of more than one second and after any earlier setting, and reports interruptions, system errors and negative requests. A periodic snooze wakes at consecutive multiples of its period after initialisation and does not drift with the work done in between or with late or interrupted wake-ups; when a validating snooze is behind it resynchronises to one period from the current time; and it always asks for a valid wake-up time.",
  ['inputs','histories','fault_sequences'],'all values around unit boundaries, all histories of work durations around the period over a controlled clock, interruptions',
  "with a real clock neither exactness nor boundary carries can be observed",
  [TM+'include/ecl/time/sleep_pos.hpp',TM+'src/lib/sleep_pos.cpp',TM+'include/ecl/time/snooze_pos.hpp',TM+'src/lib/snooze_pos.cpp'],
  [('Snooze period addition',TM+'src/lib/snooze_pos.cpp')])
P('M04','Random numbers have the distribution asked for and depend on the seed alone',
  "A uniform random number lies in [0,1], or in [-range,range] when a range is given, and is proportional to the system generator's number; gaussian numbers are always finite, are normally distributed (mean, variance, higher moments, independent pairs) and are the standard ones scaled by the deviation and shifted by the mean given with each call. "
  "The numbers drawn after constructing a generator with a seed are determined by that seed and the calls made, whatever was drawn before by this or any other generator; drawing never reseeds.",
  ['inputs','histories'],'boundary-closed sets of system numbers in sequences of up to five, a full grid of number pairs for the distribution, all histories of four draws over seeds and earlier generators',
  "a test sees a few random numbers; the failing system number is one in billions and leftovers of earlier draws need a particular history",
  [TM+'include/ecl/time/random_number_generator.hpp'],
  [('gaussian, uniform',TM+'include/ecl/time/random_number_generator.hpp')])
# ---------------------------------------------------------------- command line
P('A01','Command line parsing assigns exactly what the arguments say',
  'Parsing a command line succeeds exactly when every token is accounted for by the registered arguments, every value parses and satisfies its constraint, nothing that may be given once is given twice, and all required arguments are present; then each argument holds the value(s) given (flag or long name, value in the next token or attached with the delimiter, combined switches in any order), or its default, and reports truthfully whether it was set. Otherwise parsing fails, naming the argument or token at fault unless it is merely missing. This holds for every order of the tokens and every order of registration; after the stop marker tokens only feed positional arguments and any that are left over are ignored; and no outcome depends on another command line parsed or declared earlier in the same program. Asking for help produces a usage text that mentions every registered argument with its complete description, in either output format; in the DocBook format special characters are escaped and the elements are balanced.',
  ['inputs','configurations'],'all command lines up to a length over an alphabet of flags, names, values, malformed tokens, against a set of argument declarations and a reference parser',
  "the tests run three fixed command lines",
  [CL+f for f in ('cmd_line.hpp','arg.hpp','value_arg.hpp','multi_arg.hpp','switch_arg.hpp','multi_switch_arg.hpp','unlabeled_value_arg.hpp','unlabeled_multi_arg.hpp','values_constraint.hpp','xor_handler.hpp','std_output.hpp','docbook_output.hpp','cmd_line_output.hpp','arg_exception.hpp','constraint.hpp','help_visitor.hpp','version_visitor.hpp','ignore_rest_visitor.hpp','visitor.hpp')],
  [('CmdLine::parse',CL+'cmd_line.hpp'),('processArg',CL+'value_arg.hpp')])
P('A02','Inconsistent argument declarations are rejected and groups enforce exclusivity',
  'Declaring two arguments with the same flag or name, malformed or reserved flags or names, or a positional argument after an optional positional one is refused with a specification error when the argument is declared, and every consistent declaration is accepted. Of a group of exclusive arguments exactly one must be given, as often as that argument may be repeated: none of them or two different ones makes parsing fail, whatever else is given or missing, and any single one succeeds in every form in which it can be written.',
  ['configurations','inputs'],'all declaration sequences up to three arguments over a small set of flags, names and kinds; all exclusive groups of two or three and all subsets given',
  "tests declare one consistent set",
  [CL+f for f in ('arg.hpp','cmd_line.hpp','xor_handler.hpp','optional_unlabeled_tracker.hpp')]+[CL+'unlabeled_value_arg.hpp',CL+'unlabeled_multi_arg.hpp'],
  [('CmdLine::add, XorHandler::check',CL+'xor_handler.hpp')])
# ---------------------------------------------------------------- utilities
P('U01','Function objects, references, singletons call and hold the right thing once',
  "Every kind of function object (free, member, bound, partially bound, copied or referenced, nullary, unary, binary) invokes exactly the wrapped function exactly once with exactly the bound and supplied arguments and returns its result; copies hold their own state while reference wrappers act on the original. "
  "Parameters return the last assigned value, singletons give the same single object for each type, and blueprint factories build what their arguments describe.",
  ['programs','inputs'],'all function object kinds x argument positions x distinct argument values, copy/assign histories',
  "tests check a return code for a few kinds and cannot see swapped arguments of equal value or double calls",
  [U+f for f in ('function_objects.hpp','references.hpp','parameter.hpp','singleton.hpp','blueprints.hpp','void.hpp')],
  [('function object generators',U+'function_objects.hpp')])
P('U02','Typed flag sets obey the algebra of sets',
  "Sets of typed flags behave as sets under all operators (union, intersection, symmetric difference, complement, their assigning forms, clear, test), independent of order, with emptiness, comparison and conversion consistent with membership.",
  ['inputs','histories'],'all pairs/triples of subsets of a small enumeration and all operator sequences up to a depth',
  "tests use a few constants",
  [U+'flags.hpp'],[('Flags',U+'flags.hpp')])
P('U03','Compile-time traits, selectors and numeric limits are right for every type',
  "Type traits, conditional selectors and numeric limits give, for every character, integer and floating type, the answer the language gives (signedness, integrality, float-ness, byte-ness, byte and bit counts, minimum and maximum, negative answers for all other types), and the converters between types and flags select the documented alternative.",
  ['programs'],'every fundamental type with every trait, compared with the standard library',
  "tests pin a few types; one wrong specialisation is invisible",
  ['ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp','ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp','ecl_type_traits/src/lib/numeric_limits.cpp','ecl_mpl/include/ecl/mpl/if.hpp','ecl_mpl/include/ecl/mpl/enable_if.hpp','ecl_mpl/include/ecl/mpl/bool.hpp'],
  [('numeric_limits','ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp')])
P('U04','Exceptions carry their flag, location, message and data through rethrows',
  "A thrown exception carries the given error flag, location, detail message and data; each rethrow adds its location without losing earlier ones, flag or data; and the descriptive text contains all of them, for every flag. "
  "Translating an operating system error number yields the documented flag for each number, and the throwing macros throw exactly when their condition says so.",
  ['inputs','histories'],'all flags, all error numbers, all rethrow chains up to a depth',
  "one exception is thrown in tests",
  ['ecl_exceptions/include/ecl/exceptions/'+f for f in ('standard_exception.hpp','data_exception.hpp','posix_error_handler.hpp','macros.hpp')]+['ecl_exceptions/src/lib/standard_exception.cpp']+['ecl_devices/src/lib/detail/error_handler.cpp','ecl_devices/src/lib/detail/exception_handler_pos.cpp','ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp','ecl_exceptions/include/ecl/exceptions/exception.hpp']+['ecl_devices/include/ecl/devices/detail/'+f for f in ('error_handler.hpp','exception_handler_pos.hpp','socket_exception_handler_pos.hpp')],
  [('StandardException','ecl_exceptions/src/lib/standard_exception.cpp')])
# ---------------------------------------------------------------- numerics
P('G01','Scalar helpers: sign, cube root, norms and fuzzy comparison are exact',
  "The sign is -1, 0 or 1 as the argument, the cube root of x cubed is x for both signs, norms equal their definitions, and fuzzy equality holds exactly when the difference is within the tolerance relative to the smaller magnitude (exactly equal for two integers) and is symmetric for operands of one type; approximately-less-than holds exactly when the left is less or fuzzily equal.",
  ['inputs'],'all pairs of values of a grid closed under sign and around each tolerance boundary',
  "three positive samples are used",
  ['ecl_math/include/ecl/math/'+f for f in ('simple.hpp','norms.hpp','fuzzy.hpp','constants.hpp')],
  [('isApprox etc','ecl_math/include/ecl/math/fuzzy.hpp')])
P('G02','Angles always stay wrapped and keep their direction',
  "Wrapping any angle yields a value in the documented interval [-pi, pi] that denotes the same direction, and every operation on the angle type (construction, assignment, sums, differences, scaling, in degrees or radians) yields a wrapped angle equal modulo a full turn to the exact result. "
  "The signed difference between two angles is the shortest rotation from one to the other.",
  ['inputs','histories'],'all multiples of pi/12 over several turns with offsets of one ulp around the boundaries, all operator chains up to a depth',
  "the boundary values at exactly half turns are never sampled",
  [G+'include/ecl/geometry/angle.hpp',G+'src/lib/angle.cpp'],[('wrap_angle',G+'src/lib/angle.cpp')])
P('G03','Polynomial algebra is exact: evaluation, calculus, shift, division, fitting',
  "For every polynomial, evaluation, first and second derivatives (as a polynomial and at a point), horizontal shifting and synthetic division by a linear factor satisfy their algebraic identities (quotient times divisor plus remainder is the dividend, shift by a evaluates at x minus a), and interpolating constructors produce the polynomial that meets all given end conditions, over intervals anywhere on the axis. "
  "Binomial tables give every coefficient of every row.",
  ['inputs'],'all coefficient tuples from small integer sets for degrees 0..5, evaluation at integer grids with exact arithmetic, all interpolation end conditions from a grid',
  "a handful of coefficients are sampled",
  [G+'include/ecl/geometry/polynomial.hpp',G+'src/lib/polynomial.cpp',G+'src/lib/polynomial_blueprints.cpp',G+'include/ecl/geometry/pascals_triangle.hpp',G+'src/lib/pascals_triangle.cpp'],
  [('Polynomial',G+'include/ecl/geometry/polynomial.hpp')])
P('G04','Roots, extrema and intersections found are the true ones, all of them',
  "Solving a linear, quadratic or cubic polynomial returns every real root exactly once and nothing else, including repeated roots and vanishing leading coefficients (a polynomial that vanishes identically has no isolated root to report); the intersection of two linear functions is the point on both, and parallel ones are reported as an error and by the failure flag, which describes the last operation. "
  "Maximum and minimum over an interval equal the true extreme of the polynomial there, including at the end points.",
  ['inputs'],'all polynomials built from root sets of a small integer grid (distinct, repeated, none) and all small integer coefficient tuples, against exact root counting',
  "degenerate cases are isolated points",
  [G+'include/ecl/geometry/polynomial.hpp',G+'src/lib/polynomial.cpp',G+'include/ecl/geometry/function_math.hpp'],
  [('Roots/Intersection/Maximum/Minimum',G+'src/lib/polynomial.cpp')])
P('G05','Splines pass through their knots smoothly and honour their end conditions',
  "Cubic, tension and smoothed linear splines pass through every given knot (smoothed linear ones through the straight parts), are continuous with their first (and, where promised, second) derivative across every knot, meet the prescribed end conditions, respect the acceleration limit, and evaluate on the whole closed domain. "
  "Data sets of different sizes or of fewer than two points, an acceleration bound that no admissible corner meets, and arguments outside the domain are reported as errors.",
  ['inputs'],'all knot value tuples from a small grid for 2..5 knots with uneven spacing, all end conditions from a grid, each joint and end point',
  "two curves are sampled",
  [G+'include/ecl/geometry/cubic_spline.hpp',G+'src/lib/cubic_spline.cpp',G+'src/lib/cubic_spline_blueprints.cpp',G+'src/lib/tension_spline_blueprints.cpp',G+'src/lib/tension_function.cpp',G+'src/lib/smooth_linear_spline.cpp',G+'src/lib/tension_spline.cpp']+[G+'include/ecl/geometry/'+f for f in ('smooth_linear_spline.hpp','spline_function.hpp','tension_function.hpp','tension_spline.hpp')],
  [('C2 / derivative heuristic constructors',G+'src/lib/cubic_spline_blueprints.cpp')])
P('G06','Points and planar/spatial poses form the rigid motion group',
  "Composition, inversion and relative pose of planar and spatial poses agree with homogeneous matrices for all poses: a pose times its inverse is the identity, composition is associative, the relative pose composed back gives the pose, headings stay wrapped, and in-place operators equal their binary forms also when both operands are the same object. "
  "Cartesian and homogeneous points follow vector arithmetic and convert to one another without changing the point.",
  ['inputs','histories'],'all poses of a grid of positions and headings (including the boundary headings), all pairs and triples, both storage kinds',
  "few samples; composition with itself and heading wrap are not sampled",
  [G+'include/ecl/geometry/'+f for f in ('legacy_pose2d.hpp','legacy_pose3d.hpp','pose2d.hpp','cartesian_point.hpp','homogeneous_point.hpp')],
  [('Pose2D composition',G+'include/ecl/geometry/legacy_pose2d.hpp')])
P('G07','Distances to segments and odometry sequence helpers follow their definitions',
  "The squared distance from a point to a line segment is the minimum over the points of the segment, including degenerate (zero-length) segments and feet outside it. "
  "Odometry helper operations (conversion, extraction of position, heading and velocities, appending and inserting samples, splitting) give exactly the samples in order without altering others.",
  ['inputs','histories'],'all segments and points of an integer grid against exact rational arithmetic; all helper operations on sequences of 0..4 samples',
  "tests use one segment",
  [G+'include/ecl/geometry/linear_segment.hpp',G+'src/lib/linear_segment.cpp',G+'include/ecl/geometry/odometry_helper.hpp',G+'src/lib/odometry_helper.cpp'],
  [('LinearSegment::squaredDistanceFromPoint',G+'src/lib/linear_segment.cpp')])
P('R01','Statistics agree with batch definitions for every history',
  "Feeding any sequence of samples to the cumulative statistics gives, after each one, the mean and variance that the batch formulas give for the samples so far, and clearing starts afresh. "
  "The covariance ellipsoid of any symmetric positive definite matrix reports axes and lengths that reconstruct that matrix, with the rotation and interception points that follow from it.",
  ['histories','inputs'],'all sample sequences up to a depth over a small alphabet; all small integer covariance matrices',
  "one sequence and one matrix",
  ['ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp','ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp','ecl_statistics/src/lib/covariance_ellipsoid.cpp'],
  [('CumulativeStatistics','ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp')])
P('R02','Manipulator trajectories pass their waypoints within limits or report failure',
  'A generated trajectory starts and ends at the first and last waypoint with the configured rates, in the given time order passes (or for smoothed linear ones blends at) every intermediate waypoint on every joint, keeps each joint within its acceleration limit, is continuous in angle and rate, and generation always finishes: it reports an error when no such trajectory exists (unset or non-positive limits or nominal rates, too few waypoints, a segment without duration) instead of returning one that breaks a limit on any joint. Waypoints and trajectories are values: they keep angles, rates, duration and generated motion through copy and assignment, and waypoints of different dimension are simply different.',
  ['inputs','histories'],'all waypoint tuples from a small grid for 1..3 joints and 2..4 waypoints, all joints, durations and limits from a grid',
  "one two-joint path is sampled",
  ['ecl_manipulators/include/ecl/manipulators/trajectory.hpp','ecl_manipulators/src/lib/trajectory.cpp','ecl_manipulators/include/ecl/manipulators/waypoint.hpp'],
  [('Trajectory generators','ecl_manipulators/src/lib/trajectory.cpp')])
P('R03','Differential drive kinematics: forward and inverse are inverse of each other',
  "The pose increment from wheel rotations is the one of a rigid body rolling without slip, inverse kinematics gives the wheel rates whose forward kinematics produce the requested velocities, and both scale and change sign with their inputs for every wheel geometry.",
  ['inputs'],'all wheel rotations, velocities and geometries of a grid closed under sign and zero',
  "one geometry is sampled",
  ['ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp','ecl_mobile_robot/src/lib/differential_drive.cpp'],
  [('DifferentialDrive::Kinematics','ecl_mobile_robot/src/lib/differential_drive.cpp')])
P('P01','Canonical paths resolve to the true file or report why not',
  "Canonicalising a path yields the absolute path free of links and dot components of the file it names, for every mix of such components, and for a path that does not resolve reports an error (with the documented flag) and never a wrong or garbage path; memory is neither leaked nor read uninitialised.",
  ['inputs','fault_sequences'],'all paths up to a depth over a small tree with links, dots, missing entries and a loop; every documented error of the system call',
  "not covered by any runnable test",
  ['ecl_filesystem/include/ecl/filesystem/realpath.hpp','ecl_filesystem/src/lib/realpath.cpp'],
  [('realpath wrapper','ecl_filesystem/src/lib/realpath.cpp')])
P('H01','Rigid-transform helpers agree with matrices',
  "Conversion, construction, formatting and interpolation of planar and spatial rigid transforms through the linear algebra helpers agree with the corresponding homogeneous matrices, and interpolating gives the end transforms at the ends and moves monotonically between them.",
  ['inputs'],'all transforms of a grid of rotations and translations, interpolation parameters on a grid',
  "the external library they wrap is not installed, so nothing about them is tested here",
  ['ecl_linear_algebra/include/ecl/linear_algebra/sophus/helpers.hpp','ecl_linear_algebra/src/lib/sophus_helpers.cpp','ecl_linear_algebra/include/ecl/linear_algebra/sophus/interpolators.hpp','ecl_linear_algebra/src/lib/sophus_interpolators.cpp']+['ecl_linear_algebra/include/ecl/linear_algebra/sophus/formatters.hpp'],
  [('interpolators','ecl_linear_algebra/src/lib/sophus_interpolators.cpp')])
P('C01','The yaw and quaternion calculators answer correctly or refuse',
  "The command line calculator from yaw to quaternion prints the unit quaternion (either sign) of the rotation about the z axis by the given angle, and the one from quaternion to yaw prints, in radians and in degrees, the angle of a quaternion that is a rotation about the z axis, whichever of its two signs is given, up to whole turns. A quaternion with a non-zero x or y component is refused: the program says so and ends with a non-zero status without printing an angle. A line with missing, surplus or unreadable numbers ends with a non-zero status and without an answer; negative numbers and numbers in scientific notation are numbers.",
  ['inputs'],'angles on a grid over several turns, both signs of each quaternion, quaternions about other axes, malformed command lines',
  "the programs are installed but no test runs them",
  ['ecl_core_apps/src/utils/yaw2quaternion.cpp','ecl_core_apps/src/utils/quaternion2yaw.cpp'],
  [('calculators','ecl_core_apps/src/utils/quaternion2yaw.cpp')])
P('X01','Concept checks accept exactly the types that model the concept',
  "A compile-time concept check accepts every type that provides the documented interface (containers, devices, streams, nullary functions, blueprints) and refuses, at compile time, a type that misses any one element of it.",
  ['programs'],'for each concept a conforming type and each variant with one required element removed',
  "tests only check that conforming types are accepted",
  ['ecl_concepts/include/ecl/concepts/'+f for f in ('containers.hpp','devices.hpp','streams.hpp','nullary_function.hpp','blueprints.hpp','macros.hpp')],
  [('concept classes','ecl_concepts/include/ecl/concepts/containers.hpp')])

if __name__ == '__main__':
    for d in OUT: print(json.dumps(d))
