"""Texts for the evidence files and the manifest."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def title(prop):
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(line)
        if p['id'] == prop:
            return p['title']
    return ''


BASE = [
    'cbmc 6.11.0, goto-cc, goto-instrument (contract instrumentation, dynamic frames), MiniSat, CaDiCaL',
    'x86-64 data model, two\'s complement, C semantics of the goto-cc front end',
    'memcpy, memmove, memset, malloc and free as modelled by cbmc',
    'stubs in /verif/units and /verif/include that stand for callbacks and for functions with a unit of their own',
]
LZMA = 'liblzma (lzma_alone_decoder, lzma_code, lzma_end): contract assumed from its documentation'
CALLBACKS = ('callbacks return any int and write only the buffer they are given; '
             'they do not touch the library objects and do not longjmp out')
FROM = 'the old-image position stays below 2^60 in magnitude (2^33 adjustments would be needed)'
ONCE = 'finalize is called once per object, and a process() call gives at most SIZE_MAX bytes in total'
RUN = ('the patch reader is represented by the contract proved for each reader (units none, crle, '
       'hs_reader, lzma): it delivers at least one byte, asks for more with the chunk consumed, or fails')
LIGHT = ('the generic checks (pointer validity, overflow, division) of these units are left to the check '
         'of C03 in the quick tier')
IP = ('a size decoder stub bound by unit ip_size is used in ip_step; the lemma instances assumed in '
      'ip_step:1 and ip_shift are proved by z3 and cvc5 in unit ip_lemma')
MOVE = ('ip_shift: in_place_mem_* and in_place_next_step are stubs bound by unit ip_mem; DIV_CEIL is '
        'redefined in a mechanical copy of the source as a stub bound by unit ip_ceil; the copy injects '
        'one assumption per loop, an instance of a lemma of unit ip_lemma')

_RUN = [CALLBACKS, FROM, ONCE, RUN]
ASSUME = {
    'C01': _RUN,
    'C02': _RUN + [IP, LIGHT, 'chunk independence is read off the contracts: each step and each reader is '
                   'related to a specification automaton over the decompressed (compressed) byte '
                   'sequence that does not see chunk boundaries'],
    'C03': _RUN + [IP, MOVE, LZMA],
    'C04': _RUN + [IP, LIGHT],
    'C05': _RUN + [IP, MOVE, LIGHT],
    'C06': _RUN + [LIGHT, 'state_write and state_read carry the bytes they are given; the object restored '
                   'into is freshly initialised and of the same build'],
    'C07': _RUN + [IP, MOVE, LIGHT],
    'C08': _RUN + [IP, MOVE, LIGHT],
    'C09': _RUN + [IP, MOVE, LIGHT, 'step_get gives the step last stored, or zero'],
    'C10': ['request and segment sizes below 2^63'],
    'C11': ['one build of the decoder: window 8 bits, lookahead 7 bits, as configured in the repository'],
    'C12': [LZMA, 'decompressed amounts requested are at most 2^27 (the largest the state machine asks for)'],
    'C13': _RUN,
    'C14': ['fopen, fclose, fseek, ftell, fread, fwrite by their C standard contract (stubs with every '
            'combination of results)', 'the callback interface by the contract of units callbacks, '
            'seq_process, seq_finalize, ip_process, ip_finalize: a failing callback gives a negative result'],
    'C15': ['command words of up to 39 characters; error codes of the library up to 255; '
            'printf, fprintf, puts, exit replaced by records'],
    'C16': [],
    'C17': _RUN + [IP, MOVE, LIGHT, 'callbacks return; lzma_code returns and, by its documentation, makes '
                   'progress or reports LZMA_BUF_ERROR'],
    'C18': [CALLBACKS, LIGHT, LZMA],
}
PYAPI = ('Python C API (PyArg_ParseTuple, PyObject_GetBuffer, PyBuffer_Release, PyList_*, PyBytes_*, '
         'PyByteArray_*, PyLong_AsLongLong): stubs by its documentation, every call may fail')
IMAGES = 'images smaller than 2^30 bytes; buffers given by Python as long as it says'
SA = ('entries of the suffix array that are read lie in [0, size of the old image]; the array has one '
      'entry more than the old image and the work buffer is at least as long as the new image plus one, '
      'as create.py allocates them')
PY = ('Python integers of the code are 80-bit vectors with an obligation that no operation overflows '
      '(mathematical integers in py_in_place)')
ASSUME.update({
    'E01': [PYAPI, PY, 'the Python decoder is proved for sizes of up to ten bytes, all that pack_size '
            'emits (unit bs_pack)', 'pack_size by the contract of unit bs_pack in py_usize',
            'C decoders of sizes in CRLE segments are the subject of C13'],
    'E02': [PYAPI, IMAGES, SA, 'search() by its contract: it gives a length and a position with the match '
            'inside both images (proved in unit bs_match of E03)',
            'create.py writes the list of chunks to the patch in order (read, not proved)'],
    'E03': [PYAPI, IMAGES, SA, 'memcmp by the C standard'],
    'E06': [PY, 'struct, bitstruct and io.BytesIO by the models in lib/sym.py',
            'one instruction or data word per image at a time, at an arbitrary address: words are '
            'transformed independently but for the pairing of values, which create_patch_block() and '
            'Blocks do (by contract in py_format; unit py_blocks, bounded)',
            'data offset range as long as the data address range'],
    'E07': [PY, 'one arbitrary iteration of the segment loop, which carries nothing from one iteration to '
            'the next but what it writes (an obligation compares what it is given)',
            'images by a model of slices of arbitrary size; creation of the patch of a segment and '
            'compression replaced by records',
            'lemmas on multiples of the segment size built into lib/sym.py',
            'the new image, the old image and the minimum shift size fit into the memory'],
    'E08': [PY, 'bz2 transparent: decompression undoes compression',
            'struct and io.BytesIO by the models in lib/sym.py'],
})
BOUNDED = {
    'E06': ['py_blocks: create_patch_block, Blocks and the readers on 24 fixed addresses in two blocks, '
            'two arbitrary 32-bit values in each image'],
    'E08': ['py_bsdiff: two records of fixed sizes (2 diff, 3 extra bytes), adjustments -1 to 2, '
            'arbitrary bytes'],
}
PYBASE = ['lib/sym.py: symbolic execution of the real Python source by CPython 3.12 with z3 expressions '
          'for the inputs, one run per path, every path', 'z3',
          'modules not installed or written in C replaced by models (sym.py): struct, bitstruct, io, bz2, '
          'bsdiff; others inert (any use that matters ends the unit undecided)']
PYTHON = ('E06', 'E07', 'E08')


def trusted(prop):
    if prop in PYTHON:
        return PYBASE
    return BASE + (PYBASE if prop == 'E01' else [])


def assumptions(prop):
    return ASSUME.get(prop, [])


def bounded(prop):
    return BOUNDED.get(prop, [])


def backends(results):
    sat = [r for r in results if 'cbmc' in r.cmd]
    cad = [r for r in sat if 'cadical' in r.cmd]
    py = [r for r in results if 'pyprove' in r.cmd]
    smt = len(results) - len(sat) - len(py)
    counts = (('cbmc with MiniSat', len(sat) - len(cad)), ('cbmc with CaDiCaL', len(cad)),
              ('z3 and cvc5', smt), ('symbolic execution of Python with z3', len(py)))
    return '; '.join('%s: %d units' % c for c in counts if c[1])


def checker(results):
    parts = []
    if any('cbmc' in r.cmd for r in results):
        parts.append('goto-cc; goto-instrument --dfcc; cbmc')
    if any('pyprove' in r.cmd for r in results):
        parts.append('python3-vt lib/pyprove.py, z3')
    return '; '.join(parts)


NOT_APPLICABLE = {
    'E04': 'functional correctness of SA-IS (recursive induced sorting) and of divsufsort, where the output '
           'order depends on a global argument about all suffixes, needs quantified invariants over '
           'permutations and an inductive theory of suffix order that none of the installed C verifiers '
           '(CBMC contracts; no Frama-C WP) can express, let alone discharge unboundedly; E02 does not '
           'depend on it',
    'E05': 'the compressor keeps its data in growing Python byte strings and dictionaries of open segments; '
           'no deductive verifier for Python is installed, and the path-wise symbolic execution used for '
           'the other Python properties has no loop invariants, so it could only bound the string length',
    'E09': 'the HDiffPatch library the code wraps is a git submodule that is empty here, so neither '
           'algorithm can be compiled or specified against its implementation',
}
_PYT = ('contract verification of the real Python source: assumptions and obligations around each function, '
        'discharged by z3 over exhaustive path-wise symbolic execution, callees outside the function by '
        'their contracts')
TECHNIQUE = {'E06': _PYT, 'E07': _PYT, 'E08': _PYT}
NOTES = {
    'E06': 'Every obligation of encode, create_readers and disassemble of each processor is discharged for '
           'every instruction and data word at every address, no bound; the pairing of values into blocks '
           '(create_patch_block, Blocks) is checked bounded only (unit py_blocks), by contract elsewhere.',
    'E07': 'Every obligation is discharged for all sizes and an arbitrary segment, no bound.',
    'E08': 'offtout and offtin are proved for all integers; a whole patch is checked bounded only (unit '
           'py_bsdiff: two records of fixed sizes, arbitrary bytes).',
}


def technique(prop):
    return TECHNIQUE.get(prop, 'deductive verification with code contracts on the real C sources '
                               '(pre/postconditions, frame conditions, loop invariants and variants), '
                               'discharged per function by CBMC contract instrumentation')


def level(prop):
    return 'proof'


def note(prop):
    return NOTES.get(prop, 'Every obligation of the contracts of the functions the property rests on is '
                           'discharged for all inputs on the current source, no bound; assumptions and '
                           'trusted parts are in the evidence file.')
