"""What each property is decided by."""
import os
import re
from run import Unit, run_units, Broken, REPO, WIT, VERIF, sh
import run as R
import models
import engine
from lin import *
from engine import Ptr, Fn, UNDEF, Agg, Obj, Term

SPECS = {}

AI = ('Abstract interpretation (typestate of every memory region, payload object and reference count, combined with a linear-inequality '
      'domain, to a fixpoint) of the compiler IR of the library code as instantiated by the witness units; ')
NDEBUG = ['-DNDEBUG']


def witness(pid, units, explanation, assumptions=(), min_oblig=1, thorough=None, level='other'):
    """units: list of (src, dict) ; each analysed with and without assertions"""
    def run(rep, tier):
        us = []
        todo = list(units) + (list(thorough) if thorough and tier == 'thorough' else [])
        for src, kw in todo:
            kw = dict(kw)
            cfgs = kw.pop('configs', [('debug', []), ('release', NDEBUG)])
            for cn, fl in cfgs:
                k = dict(kw)
                k['flags'] = list(kw.get('flags', [])) + fl
                us.append(Unit(src, name='%s[%s]' % (src, cn), **k))
        res, fails = run_units(us)
        rep.add(us, res, fails)
    SPECS[pid] = {'run': run, 'explanation': explanation, 'assumptions': list(assumptions), 'min_oblig': min_oblig, 'level': level}


def h_event(name):
    def f(eng, st, a, ins, n):
        models.bump(st, name)
        return [(st, None)]
    return f


EVENTS = {'ev_destroyed': h_event('destroyed'), 'ev_call': h_event('call')}


STR = ['-D_GLIBCXX_ASSERTIONS']


def lib_throw(what):
    def f(eng, st, a, ins, name):
        eng.alarm(st, 'no-library-error', 'the standard library reports %s' % what)
        return []
    return f


LIBC = ({n: lib_throw(w) for n, w in (('_ZSt20__throw_length_errorPKc', 'an impossible length'), ('_ZSt20__throw_out_of_rangePKc', 'an index out of range'),
                                          ('_ZSt24__throw_out_of_range_fmtPKcz', 'an index out of range'), ('_ZSt19__throw_logic_errorPKc', 'a null text'),
                                          ('_ZSt17__throw_bad_allocv', 'an impossible size'), ('_ZSt28__throw_bad_array_new_lengthv', 'an impossible size'))})
TEXT = {'handlers': {**EVENTS, **LIBC}, 'flags': STR, 'opts': {'UNROLL': 4000, 'MAXSTATES': 400000, 'MAXVISIT': 8000, 'time': 300}}


def get(pid):
    if pid not in SPECS:
        raise SystemExit('unknown property ' + pid)
    return SPECS[pid]


witness('R01', [('R01_refptr.cpp', {})], AI + 'every handle operation under every aliasing of its operands, counts tracked as ghost integers.')

witness('R02', [('R02_counted.cpp', {'handlers': EVENTS}), ('R02_anycount.cpp', {'handlers': EVENTS, 'public': False})], AI + 'counts observed through object lifetime, for a symbolic number of references, plain / virtual / forwarded bases.')

import conc
witness('R03', [('R03_shared.cpp', {'handlers': {**EVENTS, **conc.R03_H}, 'opts': conc.R03_OPTS})], AI + 'other threads are covered by giving every atomic read of a shared count an arbitrary admissible value and removing the object from view as soon as our last reference is gone.',
        assumptions=['a thread only uses an object it holds a reference to', 'std::atomic operations are indivisible'])
witness('R04', [('R04_slot.cpp', {'handlers': conc.R04_H, 'opts': conc.R04_OPTS}), ('R04_alone.cpp', {'handlers': {'sched_yield': models.bound_result(0, 0)}})],
        AI + 'lock typestate of the slot word with ownership transfer at the publishing store; other threads are covered by arbitrary slot contents at every atomic read.',
        assumptions=['other threads use the slot only through AtomicRef', 'pointed-to objects are at least pointer aligned'])

witness('V01', [('V01_maybe.cpp', {}), ('V01_any.cpp', {})], AI + 'live-object typestate of the payload through every optional operation with every combination of empty/full operands and self-assignment.')

witness('V02', [('V02_function.cpp', {}), ('V02_any.cpp', {})], AI + 'ownership typestate of stored callables and heap blocks for every operation over empty / inline / heap operands.')
witness('V03', [('V03_call.cpp', {'handlers': EVENTS}), ('V03_any.cpp', {'handlers': EVENTS, 'configs': [('release', NDEBUG)]})], AI + 'argument tokens and addresses followed through the call for every value category, with call-event counting.')

import alloc
witness('A01', [('A01_array.cpp', {'handlers': alloc.H}), ('A01_vector.cpp', {'handlers': alloc.H}), ('A01_any.cpp', {'handlers': alloc.H, 'configs': [('release', NDEBUG)], 'opts': {'UNROLL': 100, 'MAXSTATES': 40000}})], AI + 'typestate of an arbitrary element of an array of arbitrary size, and of its buffer, through every operation.')

SMALL = {'handlers': alloc.H, 'opts': {'time': 150, 'UNROLL': 40, 'MAXSTATES': 40000}, 'public': False}
COUNTS = 'counts|capacity|free-slot-left|slots-match-counts'
REHASH = ('H02_rehash.cpp', {**SMALL, 'skip': COUNTS})
H03Q = ('H03_search.cpp', {**SMALL, 'skip': COUNTS, 'only': 'home1|home3|wrap|zero|(find|add)_one', 'configs': [('debug', [])]})
witness('H01', [('H01_slots.cpp', {'handlers': alloc.H, 'public': False, 'skip': COUNTS}), REHASH, ('H04_iterate.cpp', {**SMALL, 'skip': COUNTS}), ('H03_search.cpp', {**SMALL, 'only': 'add_home1|remove_home1', 'skip': COUNTS + '|.*iff.*|.*point|.*hash', 'configs': [('debug', [])]})],
        AI + 'one arbitrary slot of a table of any capacity for the whole-table operations; every slot of tables of small capacity for the rest.')
witness('H02', [('H02_density.cpp', {'handlers': alloc.H, 'public': False}), ('H02_rehash.cpp', SMALL), ('H01_slots.cpp', {'handlers': alloc.H, 'public': False}), ('H04_iterate.cpp', SMALL), ('H03_search.cpp', {**SMALL, 'only': 'add_home1|remove_home1', 'configs': [('release', NDEBUG)]})],
        AI + 'counts compared with the slots themselves after every operation.')
witness('H03', [H03Q, REHASH], AI + 'tables whose every slot is arbitrary, for every home slot of the key searched.',
        thorough=[('H03_search.cpp', {**SMALL, 'skip': COUNTS})])
witness('H04', [('H04_iterate.cpp', {**SMALL, 'skip': COUNTS})], AI + 'every content of the table, erasing or not at every step.')
witness('A02', [('A02_array.cpp', {'handlers': alloc.H}), ('A02_table.cpp', SMALL), ('A02_limit.cpp', {'handlers': alloc.H, 'public': False})], AI + 'every requested size, with a failing alternative at every allocation.')
witness('A03', [('A03_policy.cpp', SMALL)], AI + 'the owner of every block as ghost state, with arbitrary policy identities.')
witness('L01', [('L01_list.cpp', {'opts': {'UNROLL': 40, 'MAXSTATES': 40000}}), ('L01_large.cpp', {'opts': TEXT['opts'], 'configs': [('release', NDEBUG)]})], AI + 'every history over a few nodes and every position in lists of up to four members; each operation touches only a node and its neighbours.')
PLAIN = {'opts': {'UNROLL': 40, 'MAXSTATES': 40000}}
witness('Q01', [('Q01_queue.cpp', {**PLAIN, 'public': False}), ('Q01_any.cpp', TEXT)], AI + 'every outcome of every comparison, for queues of up to sixteen elements.')

BITS = ('Bit-level dataflow: each bit of each IR value is its exact dependency function (reduced decision diagram) on the input bits, '
        'merged at control-flow joins under the condition of each edge, over the whole input range; ')
M32 = ['-m32', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', os.path.join(WIT, 'm32')]
B = {'bits': True, 'configs': [('debug', []), ('release', NDEBUG), ('32-bit', M32), ('32-bit release', M32 + NDEBUG)]}
B64 = {'bits': True}
witness('Q02', [('Q02_order.cpp', {**PLAIN, 'public': False}), ('Q02_shape.cpp', {**B, 'public': False}), ('Q02_large.cpp', {**TEXT, 'configs': [('release', NDEBUG)]})], AI + 'one operation on an arbitrary heap of up to eighteen elements with arbitrary priorities keeps the heap order and removes a best element; by induction every history within that size; bit-level dataflow shows that parent and child indices are inverse for every index.')
witness('B01', [('B01_arith.cpp', B), ('B01_scaled.cpp', {**B64, 'opts': {'scale': 8}})], BITS + 'compared with the mathematical sum or product.',
        assumptions=['64- and 32-bit multiplication is decided with every integer type at one eighth of its width (code uniform in the width; otherwise undecided)'])
witness('B02', [('B02_flags.cpp', {**B64, 'configs': [('debug', []), ('32-bit', M32)]})], BITS + 'for enums over every integer type.')
witness('B03', [('B03_float.cpp', B64)], BITS + 'compared with the IEEE 754 encoding of infinities and NaNs.')
witness('B04', [('B04_bits.cpp', B)], BITS + 'for every tag width and every power-of-two alignment.')
witness('B05', [('B05_scan.cpp', B)], BITS + 'compared with the definition of the index for every possible index.')

import comp


def simple(pid, fn, technique, explanation, level='other', **kw):
    SPECS[pid] = {'run': fn, 'explanation': explanation, 'assumptions': [], 'min_oblig': 1, 'level': level, 'technique': technique, 'needs_funcs': False, **kw}


simple('C01', comp.c01, 'compile witnesses: explicit instantiation under the configuration matrix',
       'Each header is included first and alone by a witness that explicitly instantiates its class templates (so every member body is checked) and uses every public function and member template; type-checked by two compilers under every supported standard and configuration macro. A failure is reported at the library construct the compiler rejects.')
simple('C02', comp.c02, 'symbol and call query over the compiler IR; include-order compile witnesses',
       'Every definition the headers emit is inspected in the compiler IR: none may have strong external linkage, no library symbol may be used without a definition, no library function may contain a throw, catch, dynamic_cast or typeid; all headers are combined in both orders with every witness.')
simple('C03', comp.c03, 'type-level encoding: static assertions on copy and move, move-only instantiations',
       'Static assertions on the copy and move operations of every owning type and instantiations of every container operation with move-only elements; decided by the type checker for all programs.')
simple('C04', comp.c04, 'dataflow over the compiler IR of every shim (call, argument order, returned value, linkage)',
       'Each shim is inlined to one function and every path from entry to return is followed: exactly one call, to the function of the same name, with the parameters in order, whose result is returned; the definition is weak.', needs_funcs=True)

witness('G01', [('G01_guard.cpp', {'handlers': EVENTS}), ('G01_any.cpp', {'handlers': EVENTS})], AI + 'call events counted and values followed through every cancel, move and exit history of up to three guards.')

import osys
witness('T02', [('T02_mutex.cpp', {'handlers': osys.T02_H, 'opts': osys.T02_OPTS})], AI + 'the held/free typestate of the system mutex as ghost state, with arbitrary outcomes of try_lock and two thread identities; every store to the record is checked against it.',
        assumptions=['the system mutex works', 'lock does not fail'])
witness('T03', [('T03_thread.cpp', {'handlers': {**osys.T03_H, **EVENTS}, 'flags': STR})], AI + 'the thread body run after the caller and its storage are gone; names, calls and argument values followed through the copies.',
        assumptions=['the standard library runs the thread body once'])
witness('T01', [('T01_shared.cpp', {'handlers': osys.T01_H, 'opts': osys.T01_OPTS}),
                ('T01_alone.cpp', {'handlers': {**osys.T01_H, **EVENTS}, 'configs': [('debug', []), ('release', NDEBUG), ('single-threaded', ['-DKE_SINGLE_THREADED'])]})],
        AI + 'other threads are covered thread-modularly: every step of every function on the shared variable is recorded as a transition and every access happens after any sequence of recorded transitions, to a fixpoint; happens-before through acquire and release is tracked per datum.',
        assumptions=['setting a value under a valid key succeeds', 'one system key per variable; its operations are indivisible except that creation takes time', 'the variable is destroyed when no other thread uses it'])
witness('S01', [('S01_copy.cpp', PLAIN), ('S01_any.cpp', {'opts': {'MAXSTATES': 40000}})], AI + 'texts in blocks of exactly their size: every combination of length, destination size and limit up to small sizes, plus texts of any size.')
FMT = {'handlers': {**EVENTS, **osys.FMT_H}, 'flags': STR, **PLAIN}
witness('S02', [('S02_format.cpp', FMT), ('S02_long.cpp', {**FMT, 'opts': TEXT['opts'], 'configs': [('release', NDEBUG)]})], AI + 'argument lists as typestate; every text length and failure of the C formatter at every call, for every buffer size up to four and symbolic sizes beyond.',
        assumptions=['the C formatter writes at most the given size, terminated, and returns the length of the whole text or a negative number', 'formatting the same arguments twice gives the same text or fails'])


witness('S03', [('S03_split.cpp', {**TEXT, 'only': '^(?!w_split_4)'}), ('S03_long.cpp', {**TEXT, 'configs': [('release', NDEBUG)]})], AI + 'the real string and vector code followed with every byte arbitrary, for texts of up to four characters, separators of up to two and up to three pieces.',
        thorough=[('S03_split.cpp', {**TEXT, 'only': 'w_split_4', 'configs': [('debug', [])]})])
witness('S04', [('S04_text.cpp', TEXT), ('S04_long.cpp', {**TEXT, 'configs': [('release', NDEBUG)]})], AI + 'the real string code followed with every byte arbitrary, for texts of up to three characters.')
witness('O01', [('O01_lib.cpp', {'opts': TEXT['opts'], 'handlers': {**EVENTS, **osys.O01_H}})], AI + 'library handles as typestate, with opening and looking up failing or not, and every error text of up to three characters.',
        assumptions=['dlerror returns a text exactly after a failure, once'])
witness('O02', [('O02_files.cpp', {**PLAIN, 'handlers': {**EVENTS, **osys.O02_H}})], AI + 'every outcome of the system call, with an unfilled result on failure and every kind of entry on success.')
witness('O03', [('O03_path.cpp', FMT), ('O03_long.cpp', {**FMT, 'opts': TEXT['opts'], 'configs': [('release', NDEBUG)]})], AI + 'argument lists as typestate, every text of up to three characters and every buffer size up to four, with the formatter failing or not.')
witness('O04', [('O04_errors.cpp', {'opts': TEXT['opts'], 'handlers': {**EVENTS, **osys.O04_H}})], AI + 'every message of up to three characters, left in the C library or written to the buffer, for buffers of up to four bytes.',
        assumptions=['the GNU form of strerror_r'])

ARGS = {**TEXT, 'handlers': {**EVENTS, **LIBC, **osys.FMT_H, **osys.OUT_H}}
witness('V04', [('V04_vector.cpp', TEXT), ('V04_any.cpp', {**TEXT, 'configs': [('release', NDEBUG)]})], AI + 'the real vector and deque code followed for up to four elements, every position, capacity and predicate.')
witness('H06', [('H06_any.cpp', {**TEXT, 'handlers': alloc.H, 'configs': [('release', NDEBUG)]}), ('H06_large.cpp', {**TEXT, 'handlers': alloc.H, 'configs': [('release', NDEBUG)]}), ('H06_map.cpp', {**TEXT, 'handlers': alloc.H, 'configs': [('debug', [])]}), ('H06_map.cpp', {**TEXT, 'handlers': alloc.H, 'configs': [('release', NDEBUG)], 'only': 'ways|growing'})], AI + 'every history of a few operations over three keys with colliding, neighbouring and reserved hashes, and a growing table, against a plain model.',
        thorough=[('H06_map.cpp', {**TEXT, 'handlers': alloc.H, 'configs': [('release', NDEBUG)], 'only': '^(?!.*(ways|growing))'})])
TM = ['-isystem', os.path.join(WIT, 'tm')]
witness('D01', [('D01_time.cpp', {**TEXT, 'flags': STR + TM, 'opts': {**TEXT['opts'], 'nsw': True}})], AI + 'timestamps with every number of seconds and nanoseconds as a linear expression; texts of several lengths written by the formatter.',
        assumptions=['put_time of the standard library writes the time it is given in the format it is given; whole seconds of the timestamp fit the nanosecond range'])
UB = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,unreachable', '-fsanitize-trap=all']
witness('H05', [('H05_hash.cpp', {**TEXT, 'flags': UB, 'only': 'text|edges|nothing|policy'}), ('H05_hash.cpp', {'flags': UB, 'opts': {'wrapany': 65}, 'only': 'int32$|int64$|pointer$|combine'}), ('H05_any.cpp', {'flags': UB, 'opts': {'wrapany': 64}})], AI + 'every edge value of the integer keys and arbitrary ones, texts of up to three bytes of every kind, and texts of any length; the compiler marks every undefined operation.')

DBG, REL = {'configs': [('debug', [])]}, {'configs': [('release', NDEBUG)]}
witness('P02', [('P02_parse.cpp', {**ARGS, **DBG, 'only': '^(?!w_three_[134]|w_any_inline_3)'}), ('P02_parse.cpp', {**ARGS, **REL, 'only': 'w_one|w_any_[12]|w_ways|w_help|w_static|w_none|w_inline_one'}), ('P02_long.cpp', {**ARGS, **REL})],
        AI + 'every vector of up to two arguments (and of three from a smaller set) of every shape, against a model over the table of shapes; arbitrary single arguments of up to three characters.',
        thorough=[('P02_parse.cpp', {**ARGS, **DBG, 'only': 'w_three_[134]|w_any_inline_3'}), ('P02_parse.cpp', {**ARGS, **REL, 'only': 'w_three_[02]|w_two|w_inline_[no0-9]'})])
witness('P01', [('P01_reset.cpp', {**ARGS, **DBG, 'only': '^(?!w_then)'}), ('P01_reset.cpp', {**ARGS, **REL, 'only': 'w_again|w_kinds|w_help|w_config'})],
        AI + 'every first parse of up to three arguments from a set with every option kind, failure and marker, then every second parse, against a model of a new parser.',
        thorough=[('P01_reset.cpp', {**ARGS, **DBG, 'only': 'w_then'})])
witness('P03', [('P03_passthrough.cpp', {**ARGS, **DBG}), ('P03_passthrough.cpp', {**ARGS, **REL, 'only': 'w_off|w_lookalikes|w_inline|w_bytes'}), ('P02_long.cpp', {**ARGS, **DBG, 'only': 'w_line_pass|w_line_all'})],
        AI + 'every vector of three (some of four) arguments with the marker at every place, against a model; arbitrary bytes after the marker.')
witness('P04', [('P04_values.cpp', ARGS)], AI + 'arbitrary texts of up to three characters with an arbitrary earlier error number, the boundaries of the type, and every spelling of the booleans with one character arbitrary.',
        assumptions=['strtol reads decimal text as the C standard says'])
witness('P05', [('P05_usage.cpp', ARGS)], AI + 'the text printed followed character by character, for names and words of every length around the column limits and arbitrary characters.')

RS = ['-isystem', os.path.join(WIT, 'rs')]
witness('X01', [('X01_restyler.cpp', {**TEXT, 'flags': STR + RS, 'opts': {**TEXT['opts'], 'time': 700}, 'only': '^(?!w_edits_many|w_ctor_comments)', 'public': False, 'configs': [('debug', [])]})], AI + 'every set of up to three edits on a text of arbitrary characters, and every shape of the constructs the rules rewrite.',
        thorough=[('X01_restyler.cpp', {**TEXT, 'flags': STR + RS, 'only': 'w_edits_many|w_ctor_comments', 'configs': [('debug', [])]}), ('X01_restyler.cpp', {**TEXT, 'flags': STR + RS, 'only': '^(?!w_edits_many|w_ctor_comments)', 'configs': [('release', NDEBUG)]})],
        assumptions=['the compiler library reports locations in the text as the clang 6 interface documents; no macro expansions'])
