#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (how it is decided: what is enumerated against which oracle, why beyond tests)
N = {
'T01': "Scripts of lock, trylock, timed trylock, long holds and relocking by 2-3 threads under the controlled scheduler, with call-level and memory-level interleavings, debug and release builds. Oracle: a holder counter and interval reasoning (an attempt that overlaps nobody must succeed at once; one that fails must have waited exactly its duration). `deadlines` crosses start fractions x durations x release instants around second boundaries.",
'T02': "Histories of start, join, cancel, wait and destroy on one thread object for six kinds of function, crossed with the interleavings of the thread's own progress, refused system calls, and construction in junk memory. Oracle: life cycle of the function (begun once, ended, cancelled at its next cancellation point) plus the scheduler's heap and handle checks.",
'T03': "Two and three threads start, query and wait on one threadable; memory-level interleavings and refused thread creation. Oracle: at most one active body, one run per accepted start, status true from acceptance to return, object may be destroyed once it reports idle.",
'T04': "All sequences of requested priorities from every starting state of a simulated scheduler, with every documented errno of every call; the state read back has to be the requested one or an error reported.",
'S01': "All histories of connect, relay, disconnect, copy, assign, destroy on two signals and two slots over two topics against a set model of connections: after every step every signal is emitted and the multiset of calls compared. Callbacks that change connections during an emission; throwing callbacks; static endpoints.",
'S02': "Threads that emit, connect, disconnect, destroy slots, create and drop signals and relays, under the scheduler with lock-level (2-4 preemptions) and memory-level points. Oracle on intervals: a slot connected throughout an emission is called exactly once, one not connected during it never, none after its destruction returned.",
'K01': "All histories of construction, comma/list initialisation, access, resize, copy, assignment over arrays of size 0-4, compared with a plain vector; element constructors and allocations that throw.",
'K02': "All windows requested from arrays, vectors, strings and byte buffers of 0-4 elements, all window-of-window requests, access at all indices: a window is refused or lies in its range, element for element.",
'K03': "All histories of push, fill, resize, copy for capacities 1-4 against a deque of the last N items; leak- and overflow-checked elements.",
'K04': "As K03 for the FIFO: push, pop, fill, resize, copy, clear; contents and size compared with a deque after every step.",
'V01': "Every value of all 8 and 16 bit types and sets closed around zero, powers of two and ten and limits for wider ones; every buffer size from one to more than needed; oracle snprintf and a canary around the buffer.",
'V02': "Every byte string of up to 8 bytes over a small alphabet and every byte at every position, both directions, against shifts in 128 bit arithmetic; all short hexadecimal texts.",
'V03': "Every value of a boundary-closed set with every precision from below zero to far above twenty, all sequences of three (thorough four) conversions over all precisions on one object, numbers of different types taking turns, every buffer size around the needed one under AddressSanitizer; oracle the C library's fixed notation at the clamped precision.",
'V05': "Every conversion is compiled twice into one program, with and without debug checks (namespaces kept apart); each input and each pair of successive conversions on one object is run through both and compared: same value, or a throw in one and the same flag plus the documented failure value in the other.",
'F01': "The product of width, base, alignment and value sets (all 16 bit values), one-off and permanent settings, histories of setters and prints on two formatters against a reference printer.",
'F02': "As F01 for floats and strings, oracle snprintf in long double with the requested precision and layout.",
'F03': "All containers of 0-4 elements (matrices to 3x3) with every layout; oracle: one cell per element, in order, of a common width.",
'D01': "Sequences of insertions of every type and manipulator into streams over four devices; oracle: the concatenation of reference texts, present on the device after each flush.",
'D02': "All short texts over a token alphabet, long digits, token lists and device faults at each byte, read as each type; oracle strtod/strtoll and a tokenizer.",
'D03': "Histories of append, read, clear around capacity boundaries against a deque.",
'D04': "Histories of writes and reads with block sizes around the growth step against a byte queue, heap overflow detected.",
'D05': "Histories of open (both modes), write, flush, close, reopen on two files of the real file system with one or two injected failures of any call; oracle: the file must be the acknowledged writes, descriptors are counted.",
'D06': "Histories of three handles over two names with one injected failure; oracle: per-handle records contiguous and in order, one descriptor per used name.",
'D07': "All parameter combinations against a simulated terminal that validates termios as the kernel does, arrivals before, during and after every timeout, faults at every call.",
'D08': "Histories of client and server operations against a simulated network with partial transfers, hang-ups and every documented errno.",
'D09': "Every short byte string in every split through the console devices with descriptors 0-2 redirected; failing output.",
'D10': "Two and three threads that open, write, flush, close and reopen handles on the same names under the scheduler, on real files. Oracle: every flushed record in the file once, contiguous, in order; descriptors closed; counts.",
'D11': "The simulated terminal and network of D07 and D08 behind real streams: every constructor form and parameter with any one call refused; histories of insertions and extractions with one refused call or partial transfer anywhere, bytes arriving over time, hang-ups and resets; oracle: the concatenation of the texts, the values of the tokens, and fail() after every operation.",
'L01': "Histories of mode, header, stamp switches and lines on one and two log streams against reference lines.",
'I01': "Two and three users of one name under the scheduler (lock, trylock, timed, long holds), interrupted waits and failing clocks, deadlines around second boundaries, sequential histories of open/lock/unlock/destroy against a binary semaphore per instance. Two known findings (below) are recognised by their exact pattern.",
'I02': "Histories of open, write, unlink and destroy by three holders over two names with one refused call, against a map from names to segments; segments and descriptors are counted.",
'M01': "All pairs (and chains) of instants from a set closed around second and sign boundaries under every operator, oracle 128 bit nanoseconds; clock failures.",
'M02': "Histories of clock advances and readings of watches and monitors with independently running clocks, oracle exact sums.",
'M03': "All requests around unit boundaries and all lateness/interruption answers of a simulated sleep that validates its arguments; periodic schedules of snoozes.",
'M04': "The system generator is replaced: all sequences of up to five numbers from a boundary set (ends, middle, rejected pairs) through every kind of draw; range, proportionality, finiteness and scaling checked against the standard draw; a full grid of number pairs decides the distribution by its moments; all histories of four draws from a seed after every kind of earlier use must repeat.",
'A01': "Every command line of up to 3-4 tokens over declaration-specific alphabets for eight declaration sets, against a reference parser written from the documentation; sequences of two lines; exit status of a child process; usage text layout for every description length.",
'A02': "Every sequence of up to 3-4 declarations: accepted iff the documented rules allow it; exclusive groups under every command line.",
'U01': "Every kind of function object called, copied, assigned in histories of up to 4-6 steps with counting targets; references, parameters, singletons, blueprints.",
'U02': "Histories and pairs over flag universes against std::set.",
'U03': "Every fundamental type against std::type_traits and std::numeric_limits (enumerated finite space).",
'U04': "Every flag, errno and translator, chains of rethrows, in three build configurations.",
'G01': "A grid closed under sign with each neighbour (one ulp) of each tolerance boundary, oracle long double definitions.",
'G02': "All chains of wrapped angle operations over multiples of a twelfth of a half turn with neighbours, oracle exact sums reduced modulo a turn.",
'G03': "All polynomials of degree 0-7 over small coefficients, oracle 128 bit integers.",
'G04': "Integer-coefficient and given-root polynomials: the number of real roots decided exactly by discriminants, values by residual.",
'G05': "Knots, values and slopes from small grids; every piece inspected at as many points as determine it.",
'G06': "All pairs and triples of poses of a grid against homogeneous matrices in long double, all storage types.",
'G07': "All segments and points of an integer grid, all trajectories of 0-4 samples with editing histories, oracle exact definitions.",
'R01': "All sample histories with clears against batch definitions; all small integer covariance matrices, scaled and rotated.",
'R02': "Waypoint and trajectory histories (copy, assign, update, generate, re-generate) over small alphabets; positions, rates and accelerations inspected at 400 instants and each junction.",
'R03': "All combinations of geometry, increments and poses against exact rolling in long double.",
'P01': "Every path of up to 4-5 components over a tree with relative, absolute, dangling and looping links against a reference resolver; every errno.",
'H01': "All pairs of poses of a grid against homogeneous matrices.",
'C01': "The two programs run as child processes on every angle of a grid (several turns, odd values), both signs of each quaternion, other axes and malformed lines; oracle sine and cosine of half the angle.",
'X01': "Every pairing of a type family with a concept check is compiled, positive and negative; a finite space, enumerated completely.",
}
out = [open(V + '/tools/design_head.md').read(), '\n## Properties\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); pid = p['id']; out.append('### %s %s\n' % (pid, p['title'])); out.append(N[pid] + '\n')
    src = V + '/harness/%s.cpp' % pid
    a = re.search(r'^// @ASSUME: (.*)$', open(src).read(), re.M) if os.path.exists(src) else None
    if a: out.append('*Bounds and assumptions:* ' + '; '.join(x.strip() for x in a.group(1).split(';;')) + '.\n')
    out.append('*Why tests cannot:* ' + p['why_tests_cant'] + '.\n')
    try:
        e = json.load(open(V + '/tools/cost.json')); q, t = e.get(pid, {}).get('quick'), e.get(pid, {}).get('thorough'); r = []
        for n, c in (('quick', q), ('thorough', t)):
            if c: r.append('%s %s executions, %s transitions, %.0f s%s' % (n, format(c['executions'], ',').replace(',', ' '), format(c['transitions'], ',').replace(',', ' '), c['wall'], '' if c['exhaustive'] else ' (time limit)'))
        if r: out.append('*Cost:* ' + '; '.join(r) + '.\n')
    except Exception: pass
out.append(open(V + '/tools/design_tail.md').read())
k = [l.strip() for l in open(V + '/known_findings.txt') if not l.startswith('#')]
out.append('\n## Findings\n\n%d genuine defects were found on the original tree and repaired ("fix:" commits, listed in known_findings.txt with what failed); %d are recorded and not repaired:\n\n' % (sum(l.startswith('fixed:') for l in k), sum(l.startswith('known:') for l in k)))
for l in k:
    if l.startswith('known:'): out.append('* ' + re.sub(r'^known: property=(\S+) key=(\S+)', r'**\1** (`\2`):', l) + '\n')
out.append('\n## Planted bugs\n\nEach was written from the property text and the code, confirmed to build, to pass the stable tests and to fail its demonstration.\n\n'); out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); out.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/'), d.get('caught_by', d['property'])))
t = '\n'.join(x.rstrip('\n') + ('' if x.startswith('|') else '\n') for x in out)
open(V + '/DESIGN.md', 'w').write(re.sub(r'\n{3,}', '\n\n', t) + '\n')
