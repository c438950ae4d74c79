"""All checks"""
from . import layout


class Check:
    def __init__(self, units, technique, explanation, assumptions, kind='gvn'):
        self.kind = kind
        self.units, self.technique = units, technique
        self.explanation, self.assumptions = explanation, assumptions


GVN = 'abstract interpretation to canonical value graphs (global value numbering), compared with a reference description'
GVN_ASSUME = [
    'the front end models Python, the used part of numpy, struct, io and the Cython subset found in the repository',
    'machine integers of compiled code wrap at their declared width; Python integers are unbounded',
    'payloads are long enough (short payloads are C03 and C05); objects address their own payload (C04)',
    'differing value graphs are confirmed or rejected by interpreting both in random models: a difference that no '
    'sampled model shows is not reported',
]
LAYOUT_EXPL = ('every parse method and constructor of the group is abstractly interpreted over a symbolic payload, header '
               'version, id and type; return condition, raised exceptions, every entry of the result and every announced '
               'attribute is one obligation, compared as canonical term with the reference description in spec/')

CHECKS = {}
for p in ('C13', 'C14', 'C15', 'C16', 'C17'):
    CHECKS[p] = Check(layout.units, GVN, LAYOUT_EXPL, GVN_ASSUME)

from . import fileio       # noqa: E402
FRAME_ASSUME = ['streams deliver bytes of one fixed content, seek and tell as specified by io; a plain file can be sought beyond its '
                'end, decompressing streams stop there', 'no concurrent modification of the file']
CHECKS['C02'] = Check(fileio.frame_units, GVN, 'sequences of next and peek on an abstractly constructed file (plain, gzip, zstd) whose '
                      'handle is moved arbitrarily between the steps, from the start and from an arbitrary position; results, errors and '
                      'their conditions are compared with the reference reader', FRAME_ASSUME)
CHECKS['C04'] = Check(fileio.payload_units, GVN, 'sequences of read, seek and tell with symbolic arguments on an object whose shared file '
                      'handle is moved arbitrarily between the steps; all results and errors are compared with the reference view of the payload',
                      FRAME_ASSUME)
CHECKS['C01'] = Check(fileio.header_units, GVN, 'the header of the next object, at any position of a file or of a payload, as function of the '
                      'bytes there: every attribute and every refusal is compared with the reference decoder', FRAME_ASSUME)
CHECKS['C03'] = Check(fileio.truncation_units, GVN, 'the conditions under which one or two steps of an iteration (with and without peek) return, end '
                      'or raise, as functions of file length, position and content, for plain, gzip and zstd files and sub-objects', FRAME_ASSUME)

from . import primitives       # noqa: E402
PRIM_EXPL = ('the function is abstractly interpreted over symbolic data, offsets and counts including all raised exceptions; returned '
             'value, number of bytes and the conditions of return and error are compared with the reference description in spec/')
PRIM_ASSUME = ['all exceptions count as one: that a read fails is specified, not with which exception',
               'C integers wrap at their declared width, 64 bit positions do not overflow; sizes below 2**41',
               'differing value graphs are confirmed or rejected by interpreting both in random models: a difference that no '
               'sampled model shows is not reported']
CHECKS['C05'] = Check(primitives.read_units, GVN, PRIM_EXPL, PRIM_ASSUME)
CHECKS['C06'] = Check(primitives.varint_units, GVN, PRIM_EXPL, PRIM_ASSUME)
CHECKS['C07'] = Check(primitives.differential_units, GVN, PRIM_EXPL, PRIM_ASSUME)

from . import memory       # noqa: E402
CHECKS['C08'] = Check(memory.memory_units, 'bounds analysis: path conditions of unchecked accesses by abstract interpretation',
                      'every public function of the compiled modules is abstractly interpreted for all buffers, offsets and arguments; each '
                      'index expression is checked at run time by the directives in force or is an obligation: the condition under which '
                      'a pointer load, C array element or unchecked index lies outside of its buffer must be unsatisfiable',
                      ['index expressions are compiled with the bounds checks which the directives of file, class and function ask for',
                       '64 bit positions do not overflow (sizes and offsets below 2**41)', 'numpy allocates the arrays it is asked for',
                       'conditions not refuted by the path conditions are interpreted in random models; those never true are not reported'])

from . import repeat       # noqa: E402
CHECKS['C09'] = Check(repeat.repeat_units, 'frame analysis and value graphs: what parse reads and assigns besides the payload',
                      'each parse method is abstractly interpreted with arbitrary positions of object and file: its result must be that of the first '
                      'call on a fresh object, and it must assign nothing that existed before the call except positions. If it does assign something, '
                      'a second call on the same object, and a call after another object was parsed, must give the result of a first call and '
                      'leave the announced attributes alone',
                      ['payloads are long enough (short payloads are C03 and C05); objects address their own payload (C04)',
                       'results are not modified by the caller between calls', 'differences are reported if a random model shows them'])

from . import versions       # noqa: E402
CHECKS['C10'] = Check(versions.units, 'path conditions of refusals by abstract interpretation, compared version by version',
                      'the condition under which parse refuses with a not-implemented error, for a symbolic header version, id, type and payload, is compared '
                      'with the reference description for each version 0 to 12 and for 13 to 4095; classes without layout must not return at all',
                      ['payloads are long enough (short payloads are C03 and C05)', 'objects address their own payload (C04)',
                       'the supported versions are those the reference descriptions in spec/ have a layout for'])

from . import types       # noqa: E402
CHECKS['C11'] = Check(types.class_units, 'abstract interpretation of registration and delivery, type by type',
                      'importing the package is abstractly interpreted; then the next object of a file and of an object is derived for headers of each type '
                      'with a meaning, their neighbourhood and a sample of all others, and its class compared with the table in spec/types.py; '
                      'the condition under which constructors refuse a header must be that its type differs',
                      ['contents of the payload are arbitrary but complete', 'types outside of the table may be delivered as a class which is declared for that type'])
CHECKS['C12'] = Check(types.telescope_units, GVN + '; constant propagation for each telescope number',
                      'the functions that encode telescope numbers are abstractly interpreted for each number up to 1000 and for a symbolic one, the telescope '
                      'announced by every object class and found in parsed data is compared with the reference for symbolic id, type and version', GVN_ASSUME)

from . import events       # noqa: E402
TYPESTATE = 'typestate analysis: abstract interpretation of the reader over object sequences to a fixpoint of its abstract states'
EVENT_EXPL = ('the reader is abstractly interpreted object by object: headers are known, payloads are opaque values (parse is summarised, its results are C13 to C17). '
              'From every abstract state (reader and reference up to the names of values, with aliasing) each kind of object, complete, truncated or malformed, and each end of the file '
              'is applied; what is delivered, collected, warned about and what becomes of delivered events is compared with the reference. '
              'Explored until no new state appears unless the unit names a longest history; a difference is reported if the whole history, analysed from its beginning, shows it. ')
EVENT_ASSUME = ['objects come in an order that sim_telarray writes or could write: e.g. no array event before the Monte Carlo event of its shower, nothing after the histograms',
                'array events, telescope events and photon blocks come in the forms of the vocabulary (one to three telescopes, all optional parts present or absent)',
                'an event without data of an allowed telescope counts as untriggered; its trigger, tracking and stereo fields are open',
                'the event number of calibration events may have either sign']
for p, t in (('C18', ''), ('C19', 'Differences that also occur without any selection belong to C18.'),
             ('C20', 'Reported here: differences in the step in which the file ends or an object is truncated or malformed, and afterwards.'),
             ('C21', 'Reported here: differences in monitoring data and changes of events that have been delivered.')):
    CHECKS[p] = Check(events.event_units, TYPESTATE, EVENT_EXPL + t, EVENT_ASSUME)

from . import iactfile       # noqa: E402
CHECKS['C22'] = Check(iactfile.file_units, 'abstract interpretation of the event generator over scripted object sequences',
                      'the constructor and the generator are abstractly interpreted over object sequences of all kinds of showers, one after the other in all pairs (thorough: '
                      'triples), from the states in which reading, peeking and earlier iterations leave the file. Payloads are symbolic except for the numbers of reuses and the '
                      'telescope numbers: each field of each delivered event must be the value at the place which the reference names', [
                          'the file is complete and its objects come in the order in which CORSIKA writes them',
                          'generators are interpreted from beginning to end: calls of the reader between two events are not',
                          'parse of the objects other than array offsets, photon headers and telescope positions is summarised (C15, C16)'])

from . import streams       # noqa: E402
CHECKS['C24'] = Check(streams.transparent_units, GVN + '; constant propagation into commands',
                      'opening is abstractly interpreted for symbolic contents of plain, gzip and zstandard files, with and without the external program, which may work, have finished, '
                      'be missing or fail. The objects delivered, what is recognised and refused, and sequences of read, seek and tell with symbolic arguments are compared with the '
                      'reference on the decompressed content; the command line of each started program is judged option by option', GVN_ASSUME + [
                          'gzip, zstandard and the external program decompress correctly', 'a pipe delivers what is asked for until its end'])

from . import release       # noqa: E402
CHECKS['C23'] = Check(release.release_units, 'typestate analysis of handles and processes with fault enumeration, reachability in the abstract heap',
                      'opening, using and leaving a file is abstractly interpreted for each kind of file, state of the external program and way to stop using the file, and again with each single '
                      'operation of the constructor failing; files, streams, pipes and processes are objects with typestate (open or closed, running, ended, collected). Afterwards all '
                      'of them must be released, the finalizer must not keep the file object alive, and the functions that recognise file types must have closed what they opened', [
                          'one fault at a time; ending a process does not fail', 'closing a zstandard stream closes its source',
                          'handles which nothing refers to any more are closed by the interpreter, processes are not collected by it'])

from . import effects       # noqa: E402
CHECKS['C27'] = Check(effects.effect_units, 'effect analysis: flow-insensitive name, alias and mode resolution over the syntax tree',
                      'each name and attribute of each module is resolved through imports, assignments, attributes, parameters and the arguments of their calls to the '
                      'external functions it may denote; those that open files have their mode resolved in the same way and must not write, those that change files must not be reachable, '
                      'those that start programs must start a decompressor that keeps its input', [
                          'functions of other libraries that are not listed as writing (e.g. of astropy or matplotlib) do not write',
                          'names computed at run time are not resolved', 'modes and commands that are not constants are left undecided'], kind='rule')

from . import search       # noqa: E402
CHECKS['C25'] = Check(search.search_units, 'abstract interpretation of the searches over scripted object trees',
                      'each search is abstractly interpreted, generators step by step, on hand written and generated trees of objects, at the beginning, after steps of an iteration, while results are read, '
                      'from inside of objects and on files which end at each place inside or in front of an object; what is delivered, by address, is compared with a traversal of the tree', [
                          'payloads are arbitrary', 'searches in which the innermost type also occurs elsewhere than the nesting says, or inside of itself, are not specified'])

from . import cutting       # noqa: E402
CHECKS['C26'] = Check(cutting.cut_units, 'abstract interpretation of the tool over scripted files and sizes',
                      'the tool is abstractly interpreted from the command line to the output on scripted plain, gzip and zstandard files for all sizes at and around the ends of their objects; '
                      'what is written must be the bytes of the file, in place and number, which the ends of the objects demand', [
                          'the file is complete', 'payloads are arbitrary', 'argparse assigns positional arguments in their order'])

from . import printing      # noqa: E402
CHECKS['C28'] = Check(printing.print_units, 'abstract interpretation of the tools over scripted object trees',
                      'each tool is abstractly interpreted from its command line to what it prints, on hand written and generated object trees, histories and metaparams, also cut inside or in front of each object; '
                      'the printed lines are compared with the tree', [
                          'the wording of the output is not specified: objects, numbers, indentation, times and contents are recognised in it', 'argparse and Counter behave as modelled in spec/'])
