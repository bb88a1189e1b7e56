"""Which units, replay programs and assumptions decide each property."""
import json
import os
ROOT = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    'clang 18 front end (C++ source to LLVM IR at -O1 -disable-llvm-passes)',
    'engine/*.py (irv: symbolic execution, verification-condition generation, invariant inference)',
    'z3',
    'spec/std/*: contracts standing for the C++ standard library, as stated there',
]
ASSUME = [
    'the C++ standard library meets the contracts in spec/std (memory never runs out, no exceptions)',
    'machine integers are modelled exactly (wrap-around), pointers as (object, offset)',
]

CONTENT = dict(name='content', sources=['src/content_stream.cpp'], seconds=15)
VALUE = dict(name='value', sources=['src/typeof.cpp', 'src/typeinfo.cpp'], seconds=12)
SCHED = dict(name='conc', san=['-fsanitize=undefined'], seconds=20)
SCHED_REAL = dict(name='conc', variant='.real', flags=['-DREP_REAL'], san=['-fsanitize=thread'], seconds=6)
MON = ['std::mutex / std::condition_variable meet the monitor contracts of spec/monitor.h (mutual exclusion, '
       'a wait releases the lock, other threads may do anything the monitor invariant allows meanwhile, spurious wakeups)',
       'fair scheduling: a notified waiter eventually runs']
NL = ['src/content_stream.cpp', 'src/nlohmann_json_serializer.cpp', 'src/null_json_serializer.cpp', 'src/typeof.cpp', 'src/typeinfo.cpp']
NLF = ['-DCPPDAP_JSON_NLOHMANN=1', '-I$REPO/third_party/json/include']
SESS = dict(name='sess', sources=NL + ['src/session.cpp'], flags=NLF, seconds=12)
SESSC = dict(name='sessc', sources=NL, flags=NLF, san=['-fsanitize=undefined'], seconds=15)
SESSC_REAL = dict(name='sessc', variant='.real', sources=NL, flags=NLF + ['-DREP_REAL'], san=['-fsanitize=thread'], seconds=8)
SESSA = ['the JSON (de)serializer, ContentReader/ContentWriter, Chan and TypeInfo meet the contracts stated in units/session_env.h and units/session_harness.h (decided by C01-C04, C06, C13-C15)',
         'handler tables hold two arbitrary entries (table operations are per key)',
         'a request handler answers exactly once, as the interface demands; handlers do not destroy the session',
         'one thread at a time calls getPayload (the receiving thread)']
PROTO = dict(name='proto', gen=True, sources=['src/typeof.cpp', 'src/typeinfo.cpp', 'src/protocol_types.cpp', 'src/protocol_requests.cpp', 'src/protocol_response.cpp', 'src/protocol_events.cpp'], seconds=20)
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'socket getaddrinfo freeaddrinfo bind listen connect getsockopt setsockopt fcntl poll select shutdown close accept accept4 recv send read write'.split())]
SOCK_SEQ = dict(name='sock', variant='.seq', flags=['-DREP_SEQ', '-U_FORTIFY_SOURCE'], libs=WRAP, seconds=10)
SOCK = dict(name='sock', flags=['-U_FORTIFY_SOURCE'], libs=WRAP, san=['-fsanitize=undefined'], seconds=15)
SOCK_REAL = dict(name='sock', variant='.real', flags=['-DREP_REAL'], san=['-fsanitize=thread'], seconds=8)
SOCKA = ['the socket system calls meet the contracts stated in units/socket.cpp (POSIX; SO_ERROR values below 256; shutdown wakes calls blocked on the descriptor)',
         'RWMutex meets its contract (decided by C17)', 'Windows and macOS variants of the code are not covered']
REG = ['src/typeof.cpp', 'src/typeinfo.cpp', 'src/protocol_types.cpp']
JS = ['src/typeof.cpp', 'src/typeinfo.cpp', 'src/null_json_serializer.cpp']
JSON = [dict(name='json', std='c++17', variant='.nlohmann', sources=JS + ['src/nlohmann_json_serializer.cpp'], flags=NLF, seconds=10),
        dict(name='json', std='c++17', variant='.rapid', sources=JS + ['src/rapid_json_serializer.cpp'], flags=['-DCPPDAP_JSON_RAPID=1'], seconds=8),
        dict(name='json', std='c++17', variant='.jsoncpp', sources=JS + ['src/jsoncpp_json_serializer.cpp'], flags=['-DCPPDAP_JSON_JSONCPP=1', '-I/usr/include/jsoncpp'], libs=['-ljsoncpp'], seconds=8)]
JSONA = ['the JSON libraries (nlohmann, rapidjson, jsoncpp) meet the contracts stated in spec/json: parsing yields the value the text denotes, writing yields text that parses to the value',
         'containers, strings and names have fewer than 2^32 elements; nesting does not exhaust the stack',
         'floating-point numbers are modelled by their bit patterns; conversions are uninterpreted functions',
         'jsoncpp unit: code under JSON_USE_EXCEPTION is compiled out']
PROPS = {
    'C13': dict(units=['json_nlohmann', 'json_rapid', 'json_jsoncpp', 'serial'], replay=JSON, assumptions=JSONA),
    'C14': dict(units=['json_nlohmann', 'json_rapid', 'json_jsoncpp', 'serial'], replay=JSON,
                assumptions=JSONA + ['field names of a structure differ (C15); numbers are finite and keep the library\'s precision; strings are UTF-8 (others only must not crash)']),
    'C20': dict(units=['registry'], replay=[dict(name='reg', sources=REG, seconds=10), dict(name='reg', variant='.real', flags=['-DREP_REAL'], san=['-fsanitize=thread'], sources=REG, seconds=5)],
                assumptions=['initialization of function-local statics is thread-safe (C++11) and exit handlers run in reverse order of registration',
                             'fewer than 2^62 initialize calls; no initialize after the last terminate (dap.h)']),
    'C18': dict(units=['socket'], replay=[SOCK_SEQ, SOCK, SOCK_REAL], assumptions=SOCKA + ['sizes < 2^62']),
    'C19': dict(units=['network'], replay=[SOCK, SOCK_REAL], assumptions=['dap::Socket meets the contract stated in units/network.cpp (decided by C18): closing a socket ends a blocked accept, and later accepts fail',
        'callbacks do not stop or destroy the server they are called from', 'std::thread: spec/std/thread; SPEC_ATOMIC lets another thread stop the server at every access to shared atomics and at every accept']),
    'C15': dict(units=['protocol'], replay=[PROTO], assumptions=['the DAP name of a member is its identifier (exceptions: def -> default, restart -> __restart in attach/launch); the DAP name of a request or event is its struct name without the suffix, first letter lower case',
        'what a (de)serializer does with the value of one field is decided by C13/C14']),
    'C09': dict(units=['session'], replay=[SESS], assumptions=SESSA),
    'C10': dict(units=['session'], replay=[SESS, SESSC, SESSC_REAL], assumptions=SESSA),
    'C11': dict(units=['session'], replay=[SESS, SESSC, SESSC_REAL], assumptions=SESSA + ['fewer than 2^31-16 messages per session']),
    'C12': dict(units=['session'], replay=[SESS, SESSC_REAL], assumptions=SESSA),
    'C22': dict(units=['session'], replay=[SESS, SESSC, SESSC_REAL], assumptions=SESSA + ['fair scheduling; a closed stream ends a blocked read']),
    'C01': dict(units=['content_stream'], replay=[CONTENT],
                assumptions=['dap::Writer implementations accept or refuse each write call as a whole',
                             'message size < 2^62']),
    'C02': dict(units=['content_stream'], replay=[CONTENT],
                assumptions=['dap::Reader::read returns between 1 and n bytes, or 0 at end of stream / closed', 'stream length < 2^62']),
    'C03': dict(units=['content_stream'], replay=[CONTENT],
                assumptions=['dap::Reader::read returns between 1 and n bytes, or 0 at end of stream / closed', 'stream length < 2^62']),
    'C04': dict(units=['content_stream'], replay=[CONTENT],
                assumptions=['dap::Reader::read returns between 1 and n bytes, or 0 at end of stream / closed', 'stream length < 2^62']),
    'C05': dict(units=['pipe'], replay=[SCHED, SCHED_REAL],
                assumptions=MON + ['one reader at a time inside a read call (rely condition of the ordering contract)']),
    'C06': dict(units=['chan'], replay=[SCHED, SCHED_REAL],
                assumptions=MON + ['proved at element type = 64-bit token: Chan<T> only moves/copies T']),
    'C16': dict(units=['future'], replay=[SCHED, SCHED_REAL],
                assumptions=MON + ['proved at value type = 64-bit token: promise/future only move/copy T']),
    'C17': dict(units=['rwmutex'], replay=[SCHED, SCHED_REAL],
                assumptions=MON + ['callers follow the protocol: unlock only what they locked']),
    'C07': dict(units=['any'], replay=[VALUE],
                assumptions=['contained types are represented by two abstract types of arbitrary size below 2^40 and alignment 1..16 (32 and 64 natively)',
                             'the value assigned does not live inside the any it is assigned to (other than the any itself)']),
    'C08': dict(units=['optional'], replay=[VALUE],
                assumptions=['the contained type has a total order and copies faithfully; its moved-from state is arbitrary',
                             'no self move-assignment']),
    'C21': dict(units=['io'], replay=[dict(name='io', sources=['src/io.cpp'], seconds=12)],
                assumptions=['the C stdio functions meet the contracts stated in units/io.cpp (fgetc, fread, fwrite, fflush, fclose, fopen)',
                             'sizes < 2^50', 'no use of a file adaptor concurrent with or after its close']),
}


def level(p):
    return PROPS[p].get('level', 'proof')


def load_expect():
    try:
        return json.load(open(os.path.join(ROOT, 'units', 'expect.json')))
    except OSError:
        return {}


def known_findings(p):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % p):
                out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


NOTE = ('Every obligation generated from the current source is discharged by z3, for all inputs and iterations; '
        'callers against callee contracts where listed. Trusts the engine, clang and the std-library contracts.')
NOT_APPLICABLE = {}
NA_DEFAULT = 'not yet under contract'
