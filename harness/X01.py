"""X01: every program in a bounded space of candidate models is put through the compiler with the library's concept
check; a candidate must be accepted exactly when it offers every required element. The space per concept is the subset
lattice of its required elements (quick: the full set, every set with one element missing, every one-element weakening;
thorough: every subset), crossed with real library types that are documented to model the concept."""
import subprocess, glob, os, itertools, concurrent.futures as cf

COMMON = r'''
#include <cstddef>
#include <vector>
#include <ostream>
#include <ecl/concepts.hpp>
'''
# concept -> (prefix of class body, [(element name, code)], [(weakening name, element replaced, new code)])
C = {}
def container(extra, val):
    return [('iterator', 'typedef %s* iterator;' % val), ('begin', '%s* begin() { return 0; }' % val), ('end', '%s* end() { return 0; }' % val), ('size', 'unsigned int size() { return 0; }')] + extra
weak_cont = [('size-void', 'size', 'void size() {}'), ('begin-unrelated', 'begin', 'struct Q {}; Q begin() { return Q(); }'), ('end-unrelated', 'end', 'struct Q2 {}; Q2 end() { return Q2(); }'), ('private-size', 'size', 'private: unsigned int size() { return 0; } public:')]
C['ContainerConcept'] = (container([], 'int'), weak_cont)
C['DynamicContainerConcept'] = (container([('resize', 'void resize(unsigned int) {}')], 'int'), weak_cont + [('resize-no-args', 'resize', 'void resize() {}')])
def bytes_(val, bad):
    e = container([('value_type', 'typedef %s value_type;' % val)], val)
    return (e, weak_cont + [('element-' + b, 'value_type', 'typedef %s value_type;' % b) for b in bad])
others = ['short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'bool', 'wchar_t', 'char16_t', 'float', 'double', 'void*', 'char*']
C['ByteContainerConcept'] = bytes_('char', others)
C['SignedByteContainerConcept'] = bytes_('signed char', others + ['unsigned char'])
C['UnsignedByteContainerConcept'] = bytes_('unsigned char', others + ['signed char'])
RC = [('read-char', 'long read(char &) { return 1; }'), ('read-buffer', 'long read(char*, unsigned long) { return 1; }')]
WC = [('write-char', 'long write(char) { return 1; }'), ('write-buffer', 'long write(const char*, unsigned long) { return 1; }'), ('flush', 'void flush() {}')]
WV = [('read-void', 'read-char', 'void read(char &) {}'), ('read-buffer-void', 'read-buffer', 'void read(char*, unsigned long) {}')]
WW = [('write-void', 'write-char', 'void write(char) {}'), ('write-buffer-void', 'write-buffer', 'void write(const char*, unsigned long) {}'), ('flush-private', 'flush', 'private: void flush() {} public:')]
OP = [('open', 'bool open() { return true; }')]; OW = [('open-void', 'open', 'void open() {}')]
C['InputCharDeviceConcept'] = (OP + RC, OW + WV)
C['OutputCharDeviceConcept'] = (OP + WC, OW + WW)
C['InputOutputCharDeviceConcept'] = (RC + WC, WV + WW)
T = [('schar', 'signed char'), ('char', 'char'), ('uchar', 'unsigned char')]
RB = [('read-' + n, 'long read(%s &) { return 1; }' % t) for n, t in T] + [('read-%s-buffer' % n, 'long read(%s*, unsigned long) { return 1; }' % t) for n, t in T]
# writing one byte: a missing overload is served by another integral one, so one template-free overload per type is deleted instead of absent
WB = [('write-' + n, 'long write(%s) { return 1; }' % t) for n, t in T] + [('write-%s-buffer' % n, 'long write(const %s*, unsigned long) { return 1; }' % t) for n, t in T] + [('flush', 'void flush() {}')]
IO = [('isOpen', 'bool isOpen() { return true; }')]; IW = [('isOpen-void', 'isOpen', 'void isOpen() {}')]
WBW = [('write-%s-refused' % n, 'write-' + n, 'long write(%s) = delete;' % t) for n, t in T]
RBW = [('read-%s-void' % n, 'read-' + n, 'void read(%s &) {}' % t) for n, t in T]
C['InputByteDeviceConcept'] = (IO + RB, IW + RBW)
C['OutputByteDeviceConcept'] = (IO + WB, IW + WBW)
C['InputOutputByteDeviceConcept'] = (IO + RB + WB, IW + RBW + WBW)
C['StreamConcept'] = ([('insert', 'Candidate &operator<<(char) { return *this; }'), ('flush', 'void flush() {}')], [('insert-private', 'insert', 'private: Candidate &operator<<(char) { return *this; } public:'), ('insert-string-only', 'insert', 'Candidate &operator<<(const char*) { return *this; }')])
C['NullaryFunctionConcept'] = ([('result_type', 'typedef int result_type;'), ('call', 'int operator()() { return 0; }')], [('call-unary', 'call', 'int operator()(int) { return 0; }'), ('call-private', 'call', 'private: int operator()() { return 0; } public:')])
C['BluePrintConcept'] = ([('base_type', 'typedef int base_type;'), ('instantiate', 'int instantiate() { return 0; }'), ('apply', 'void apply(int &) {}')],
    [('instantiate-void', 'instantiate', 'void instantiate() {}'), ('apply-no-args', 'apply', 'void apply() {}'), ('instantiate-unrelated', 'instantiate', 'struct Q {}; Q instantiate() { return Q(); }')])
# dropping one of the one-byte write overloads alone leaves an ambiguous or converting call: the language decides, not the library
AMBIG = {'write-schar', 'write-char', 'write-uchar'}

POS = ['void check() { ecl_compile_time_concept_check(ecl::%s<Candidate>); }',   # inside a function
       'struct Holder { ecl_compile_time_concept_check(ecl::%s<Candidate>); };',   # inside a class
       'template <typename T> struct Tmpl { Tmpl() { ecl_compile_time_concept_check(ecl::%s<T>); } }; void check() { Tmpl<Candidate> t; }']   # inside a template, as the library uses it

REAL = [   # (headers, concept, type, expected)
  ('<ecl/containers/array.hpp>', 'ContainerConcept', 'ecl::Array<int>', 1), ('<ecl/containers/array.hpp>', 'DynamicContainerConcept', 'ecl::Array<int>', 1),
  ('<ecl/containers/array.hpp>', 'ContainerConcept', 'ecl::Array<int,4>', 1), ('<ecl/containers/array.hpp>', 'DynamicContainerConcept', 'ecl::Array<int,4>', 0),
  ('<ecl/containers/array.hpp>', 'ByteContainerConcept', 'ecl::Array<char,4>', 1), ('<ecl/containers/array.hpp>', 'ByteContainerConcept', 'ecl::Array<int,4>', 0),
  ('<ecl/containers/array.hpp>', 'UnsignedByteContainerConcept', 'ecl::Array<unsigned char>', 1), ('<ecl/containers/array.hpp>', 'SignedByteContainerConcept', 'ecl::Array<unsigned char>', 0),
  ('<ecl/containers/push_and_pop.hpp>', 'ContainerConcept', 'ecl::PushAndPop<int>', 1), ('<ecl/containers/push_and_pop.hpp>', 'ContainerConcept', 'ecl::PushAndPop<unsigned char>', 1),
  ('<vector>', 'DynamicContainerConcept', 'std::vector<int>', 1), ('<vector>', 'UnsignedByteContainerConcept', 'std::vector<unsigned char>', 1), ('<vector>', 'ByteContainerConcept', 'std::vector<unsigned char>', 1), ('<vector>', 'ByteContainerConcept', 'std::vector<signed char>', 1), ('<vector>', 'ByteContainerConcept', 'std::vector<int>', 0), ('<vector>', 'ByteContainerConcept', 'std::vector<bool>', 0), ('<vector>', 'SignedByteContainerConcept', 'std::vector<char>', 1), ('<vector>', 'SignedByteContainerConcept', 'std::vector<unsigned char>', 0), ('<vector>', 'UnsignedByteContainerConcept', 'std::vector<signed char>', 0),
  ('<ostream>', 'StreamConcept', 'std::ostream', 1), ('<vector>', 'StreamConcept', 'std::vector<char>', 0),
  ('<ecl/devices.hpp>', 'OutputCharDeviceConcept', 'ecl::OFile', 1), ('<ecl/devices/console.hpp>', 'OutputCharDeviceConcept', 'ecl::OConsole', 1), ('<ecl/devices/console.hpp>', 'OutputCharDeviceConcept', 'ecl::EConsole', 1), ('<ecl/devices/console.hpp>', 'InputCharDeviceConcept', 'ecl::IConsole', 1),
  ('<ecl/devices.hpp>', 'InputCharDeviceConcept', 'ecl::String', 1), ('<ecl/devices.hpp>', 'OutputCharDeviceConcept', 'ecl::String', 1), ('<ecl/devices.hpp>', 'InputOutputCharDeviceConcept', 'ecl::String', 1), ('<ecl/devices.hpp>', 'InputOutputCharDeviceConcept', 'ecl::Serial', 1), ('<ecl/devices/console.hpp>', 'InputCharDeviceConcept', 'ecl::OConsole', 0), ('<ecl/devices/console.hpp>', 'OutputCharDeviceConcept', 'ecl::IConsole', 0),
  ('<ecl/streams.hpp>', 'StreamConcept', 'ecl::TextStream<ecl::String>', 1), ('<ecl/streams.hpp>', 'StreamConcept', 'ecl::TextStream<ecl::OFile>', 1), ('<ecl/streams/console_streams.hpp>', 'StreamConcept', 'ecl::OConsoleStream', 1), ('<ecl/streams/console_streams.hpp>', 'StreamConcept', 'ecl::IConsoleStream', 0),
  ('<ecl/utilities.hpp>', 'NullaryFunctionConcept', 'ecl::NullaryFreeFunction<void>', 1), ('<ecl/utilities.hpp>', 'NullaryFunctionConcept', 'ecl::NullaryFreeFunction<int>', 1), ('<ecl/utilities.hpp>', 'NullaryFunctionConcept', 'ecl::UnaryFreeFunction<int,void>', 0),
]
USE = [   # library templates that promise to check their arguments
  ('bytes from an integer', '#include <ecl/converters.hpp>\n#include <vector>\nvoid check() { ecl::Converter< %s, int > c; (void) c; }', [('std::vector<char>', 1), ('std::vector<unsigned char>', 1)]),
  ('integer from bytes', '#include <ecl/converters.hpp>\n#include <vector>\nvoid check() { ecl::Converter< int, %s > c; std::vector<char> v(4); (void) c; }', [('std::vector<char>', 1), ('std::vector<unsigned char>', 1)]),
]

def cand(elems, chosen, repl=None):
    body = ''.join('  ' + (repl[1] if repl and repl[0] == n else code) + '\n' for n, code in elems if n in chosen)
    return 'struct Candidate {\n' + body + '};\n'

def programs(tier):
    out = []   # (scenario, key, description, source, expected)
    for con, (elems, weak) in C.items():
        names = [n for n, _ in elems]
        full = frozenset(names)
        for i, p in enumerate(POS): out.append((con, 'accept', 'complete candidate, check placed %s' % ['in a function', 'in a class', 'in a template'][i], COMMON + cand(elems, full) + p % con, 1))
        subsets = [full - {n} for n in names]
        if tier == 'thorough' and len(names) <= 6: subsets = [frozenset(s) for k in range(len(names)) for s in itertools.combinations(names, k)]
        elif tier == 'thorough': subsets += [full - {a, b} for a, b in itertools.combinations(names, 2)]
        for s in subsets:
            miss = full - s
            if miss <= AMBIG: continue
            for p in (POS if tier == 'thorough' and len(miss) == 1 else POS[:1]): out.append((con, 'refuse', 'candidate without ' + ', '.join(sorted(miss)), COMMON + cand(elems, s) + p % con, 0))
        for w, n, code in weak: out.append((con, 'refuse', 'candidate whose %s is replaced by: %s' % (n, code), COMMON + cand(elems, full, (n, code)) + POS[0] % con, 0))
        if con.endswith('ByteContainerConcept'):   # every admissible element type
            for t in {'Byte': ['char', 'signed char', 'unsigned char'], 'SignedByte': ['char', 'signed char'], 'UnsignedByte': ['unsigned char']}[con[:-len('ContainerConcept')]]:
                out.append((con, 'accept', 'elements of type ' + t, COMMON + cand(elems, full, ('value_type', 'typedef %s value_type;' % t)) + POS[0] % con, 1))
    for h, con, t, exp in REAL:
        if not exp: out.append(('library types', 'control', t + ' itself', COMMON + '#include %s\ntypedef %s Candidate;\nCandidate *candidate;\n' % (h, t), 1))
        out.append(('library types', 'accept' if exp else 'refuse', '%s for %s' % (con, t), COMMON + '#include %s\ntypedef %s Candidate;\n' % (h, t) + POS[0] % con, exp))
    for name, src, cases in USE:
        for t, exp in cases: out.append(('library templates', 'accept' if exp else 'refuse', '%s: %s' % (name, t), COMMON + src % t + '\n', exp))
    # a text stream over a user's device checks the device
    for con, trait, base in (('OutputCharDeviceConcept', 'is_sink', 'Output'), ('InputCharDeviceConcept', 'is_source', 'Input')):
        elems = [e for e in C[con][0]]
        extra = [('x', 'bool open(const std::string &) { return true; } typedef int error_type;')]
        src = '#include <ecl/streams.hpp>\n#include <string>\n%snamespace ecl { template <> class %s<Candidate> : public True {}; }\nvoid check() { ecl::TextStream<Candidate> s; (void) s; }\n'
        for miss in [None] + [n for n, _ in elems]:
            full = frozenset(n for n, _ in elems) - {miss}
            out.append(('library templates', 'refuse' if miss else 'accept', 'text stream over a device ' + ('without ' + miss if miss else 'with everything'), COMMON + src % (cand(elems, full), trait), 0 if miss else 1))
    return out

def explore(tier, bdir, R, known):
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    flags = ['-std=c++14', '-w', '-fsyntax-only', '-I' + R, '-I' + V + '/shim/include'] + ['-I' + p for p in sorted(glob.glob(R + '/ecl_*/include'))] + ['-I/usr/include/eigen3', '-include', 'unistd.h']
    progs = programs(tier)
    def one(ip):
        i, p = ip
        f = '%s/p%d.cpp' % (bdir, i); open(f, 'w').write(p[3])
        r = subprocess.run(['g++'] + flags + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(progs)))
    viol, hits, sc, samples = [], {}, {}, []
    for (con, key, desc, src, exp), (rc, out) in zip(progs, res):
        s = sc.setdefault(con, dict(name=con, programs=0, accepted=0, refused=0, complete=True)); s['programs'] += 1; s['accepted' if rc == 0 else 'refused'] += 1
        if len(samples) < 6 and (exp == 0) == (len(samples) % 2 == 1): samples.append(dict(concept=con, candidate=desc, accepted=(rc == 0)))
        if (rc == 0) != bool(exp):
            k = con.replace(' ', '-') + '-' + key
            if k in known: hits[k] = hits.get(k, 0) + 1; continue
            viol.append(dict(scenario=con, key=k, msg='%s: the compiler %s it although the concept check should %s it' % (desc, 'accepted' if rc == 0 else 'refused', 'accept' if exp else 'refuse'), choices=desc, trace=src + '\n' + out[:1500]))
    return dict(violations=viol[:5], states=len(progs), transitions=len(progs), validated=len(progs), executions=len(progs), distinct_traces=len(set(p[3] for p in progs)), complete=True, scenarios=list(sc.values()), known=[dict(key=k, hits=n) for k, n in hits.items()], warnings=[], samples=samples,
                assume='A candidate that merely lacks one of several one-byte write overloads is left to C++ overload resolution and not judged;;g++ -fsyntax-only is the judge of acceptance')
