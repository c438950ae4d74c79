"""The properties"""
B = 'src/eventio/base.py'
H = 'src/eventio/header.pyx'
T = 'src/eventio/tools.py'
V = 'src/eventio/var_int.pyx'
O = 'src/eventio/simtel/objects.py'
S = 'src/eventio/simtel/simtelfile.py'
IO = 'src/eventio/iact/objects.py'
IF = 'src/eventio/iact/__init__.py'
P = 'src/eventio/simtel/parsing.pyx'
IP = 'src/eventio/iact/parsing.py'

PROPS = [
 dict(id='C01', title='Object headers are decoded exactly as the format defines them',
  statement='''For every 12 byte object header (plus 4 byte extension if the header announces one), type, version, user bit,
  extension bit, signed id, sub-object flag and payload size reported for an object are exactly the bits the eventio format
  assigns to them, the size being extended to 42 bits by the extension field. The payload starts directly behind the header,
  which occupies 12 bytes, 4 more with a synchronisation marker and 4 more with an extension; little endian is accepted, big
  endian refused as not supported and anything else refused as corrupt.''',
  over=['inputs'], text='all header words, all extension words, top level and sub-object headers, all file positions',
  why='The tests decode a handful of headers of small files; no test file has an extension, a user bit or a payload above 1 GB.',
  files=[H, B, 'src/eventio/constants.py'],
  mechanism=[('bit field extraction', H), ('extension field and sync marker', B)],
  observe=['EventIOObject.header', 'EventIOFile.__next__']),
 dict(id='C02', title='Iteration delivers every top level object once, in file order',
  statement='''Iterating over a file delivers its top level objects in file order, each exactly once and each built for the
  type stored in its header, no matter what was read, parsed or sought in between, and iterating over an object that contains
  only sub-objects delivers those in the same way and stops at the end of its payload. Peeking returns what the next step of the
  iteration delivers (or reports its error there) without consuming it; objects that contain data refuse to be iterated.''',
  over=['histories', 'inputs'], text='all interleavings of next, peek, read, seek and parse calls; all files',
  why='Tests iterate a few files straight through and peek once; the interleavings and the file contents are unbounded.',
  files=[B], state=[dict(name='_next_header_pos', meaning='position of the next unread header', where=B),
                    dict(name='next / peek_error', meaning='object or error found by peek', where=B)],
  mechanism=[('absolute seek before every header', B), ('peek buffer', B)],
  observe=['EventIOFile.__next__', 'EventIOFile.peek', 'EventIOObject.__next__']),
 dict(id='C03', title='Truncated or corrupt framing is reported, never taken for the end of the file',
  statement='''If a file ends anywhere but at the end of a top level object, or the bytes at the start of an object are not a
  valid marker, reading it sequentially ends with an error; iteration ends silently only when the file ends exactly behind a
  complete object. A truncated header or extension of a sub-object is an error too.''',
  over=['crash_points', 'inputs'], text='all positions at which a file can be cut, all marker values, compressed and uncompressed',
  why='Tests cut one file at a few positions; every byte position in every object and nesting level is a different case.',
  files=[B], mechanism=[('size checks of marker, header and extension', B), ('position check behind the last payload', B)],
  observe=['EventIOFile.__next__', 'EventIOObject.__next__']),
 dict(id='C04', title='Reading an object never leaves its payload',
  statement='''Read, seek and tell of an object work on its payload like on a file of exactly that length: reads return payload
  bytes from the current position and end at the end of the payload (also for all remaining bytes), positions advance by what
  was read and seeking is relative to start, position or end of the payload and refuses to go before its start. This holds
  whatever has been done with the file or other objects of the same file in between.''',
  over=['histories', 'inputs'], text='all sizes, offsets, whence values and positions of the shared file handle',
  why='Tests read a few objects completely; sizes, offsets and interleaved uses of the shared file handle are unbounded.',
  files=[B], state=[dict(name='_pos', meaning='position in the payload', where=B)],
  mechanism=[('absolute seek of the shared handle before each read, clamping to the payload size', B)],
  observe=['EventIOObject.read', 'EventIOObject.seek', 'EventIOObject.tell']),
 dict(id='C05', title='Primitive values are decoded exactly and short data raise an error',
  statement='''Each primitive read (8 to 64 bit integers, floats, arrays, strings, times, variable length integers) consumes
  exactly the bytes of its encoding and returns the little endian value with the signedness and width of its name. If the
  stream has fewer bytes than the encoding needs, an exception is raised instead of returning a shorter or invented value.''',
  over=['inputs'], text='all stream contents, lengths and counts',
  why='Tests read a few values; the value space and every possible truncation are not enumerable.',
  files=[T], mechanism=[('struct formats and exact reads', T)], observe=['the read functions of eventio.tools']),
 dict(id='C06', title='Variable length integers are decoded by the format definition',
  statement='''A variable length integer occupies the 1 to 9 bytes given by its first byte and its value is the big endian
  number of the remaining bits; signed values are zigzag encoded; arrays are the consecutive values and report the number
  of bytes they occupy. A value that extends beyond the data raises an error.''',
  over=['inputs'], text='all byte sequences, offsets and element counts, all lengths from 1 to 9 bytes',
  why='Tests check selected values; five to nine byte encodings, offsets and truncated sequences are not covered.',
  files=[V, T], mechanism=[('length table, value assembly, zigzag', V), ('stream variants', T)],
  observe=['functions of eventio.var_int', 'read_varint', 'read_unsigned_varint']),
 dict(id='C07', title='Differentially encoded arrays are restored exactly',
  statement='''Decoding a block of differentially encoded arrays returns, for every array, the running sum of the signed
  differences and the number of bytes the block occupies; each array starts from zero. Nothing depends on the number of arrays, their
  length or the sizes of the encoded differences.''',
  over=['inputs'], text='all byte sequences, numbers of arrays and elements',
  why='Tests decode sample traces; carry of the running value, resets between arrays and widths need arbitrary data.',
  files=[V], mechanism=[('nested loops with running value', V)], observe=['unsigned_varint_arrays_differential']),
 dict(id='C08', title='Compiled decoders never read or write outside of their buffers',
  statement='''For every input buffer, offset and count, a compiled decoder either reads only bytes of the data it was given
  and writes only elements of the arrays it created, or it raises an exception before it does anything else.''',
  over=['inputs'], text='all buffers, offsets, counts and element values found in the data',
  why='Out of bounds accesses usually go unnoticed in a test; they depend on malformed or truncated data.',
  files=[V, H, P], mechanism=[('checked views, availability checks before raw loads', V), ('same', P)],
  observe=['compiled functions called from parse methods']),
 dict(id='C09', title='Parsing is repeatable and independent of what happened before',
  statement='''Parsing an object returns the same result every time it is called, whatever was read, sought or parsed from this
  object or its file before, and leaves everything the object announces (type, id, size, attributes) unchanged. No result
  depends on another parsed object.''',
  over=['histories'], text='all histories of calls on the object and other objects of the same file',
  why='Tests parse freshly delivered objects once.', files=[O, IO, 'src/eventio/histograms.py', B],
  mechanism=[('rewinding to the start of the payload before parsing', O)], observe=['parse methods']),
 dict(id='C10', title='Unsupported object versions are refused, supported ones are not',
  statement='''Parsing an object with a version for which its layout is not known raises a not-implemented error before any
  data are returned, and no supported version is refused. Objects of types without known layout refuse to be parsed.''',
  over=['inputs'], text='all 4096 versions of all object types', why='Tests only meet the versions stored in the test files.',
  files=['src/eventio/version_handling.py', O, IO, 'src/eventio/histograms.py'],
  mechanism=[('version assertions at the start of parse', 'src/eventio/version_handling.py')], observe=['parse methods']),
 dict(id='C11', title='Every object type is delivered as the class made for it',
  statement='''Each type number of the eventio format that the package describes is delivered as the one class that describes
  it, including the ranges of types that encode a telescope number, and all other types are delivered as generic objects. Building a
  class for a header of another type is refused.''',
  over=['inputs', 'configurations'], text='all 65536 types', why='Tests meet the types of the test files only.',
  files=['src/eventio/simtel/objects.py', IO, 'src/eventio/__init__.py', B], state=[dict(name='KNOWN_OBJECTS', meaning='class by type', where=B)],
  mechanism=[('registration when the package is imported', 'src/eventio/__init__.py')], observe=['EventIOFile.__next__', 'constructors']),
 dict(id='C12', title='Telescope numbers survive their encoding in types and ids',
  statement='''For every telescope number the type of a telescope event or a tracking position decodes back to the number it was
  made from, and different telescopes have different types. Objects whose telescope is stored in their id or type announce exactly that
  telescope.''',
  over=['inputs'], text='all telescope numbers up to 1000 per block, all ids', why='Tests use a handful of telescopes below 100 with one array.',
  files=[O, 'src/eventio/simtel/objects.py', IO], mechanism=[('id arithmetic', O)], observe=['telescope_id of objects', 'telid_to_type functions']),
 dict(id='C13', title='Run and camera description payloads are decoded field by field',
  statement='''For history, run header, Monte Carlo run header and all camera and drive description objects, parsing a complete payload of any
  supported version returns exactly the fields the format defines, each with the value, type and shape that its bytes encode, for all
  optional parts and element counts.''',
  over=['inputs'], text='all payload contents, supported versions and counts', why='Tests compare a few values of a few files with one version each.',
  files=[O, P, V], mechanism=[('parse methods of types 70 to 75 and 2000 to 2008', O)], observe=['results of parse']),
 dict(id='C14', title='Event data payloads are decoded field by field',
  statement='''For trigger, tracking, telescope event header, pulse sum, sample, image, timing, pixel list, trigger time and auxiliary trace objects,
  parsing a complete payload of any supported version returns exactly the fields the format defines, each with the value, type, shape and
  pixel assignment that its bytes encode, for all storage modes, optional parts and element counts.''',
  over=['inputs'], text='all payload contents, supported versions, storage modes, gains and counts',
  why='Tests compare a few values; zero suppression and reduction modes, gains and versions combine to far more layouts than the files have.',
  files=[O, P, V], mechanism=[('parse methods of types 2009 to 2016, 2027, 2029, 2030, 2032, 21xx, 22xx', O), ('compiled decoders', V)],
  observe=['results of parse', 'attributes of the objects']),
 dict(id='C15', title='Simulation, calibration and monitoring payloads are decoded field by field',
  statement='''For shower, event, photo-electron sum, camera and pixel monitoring and laser calibration objects, parsing a complete payload of any
  supported version returns exactly the fields the format defines, each with the value, type and shape that its bytes encode, for all
  optional parts and element counts.''',
  over=['inputs'], text='all payload contents, supported versions, monitoring flags and counts',
  why='Monitoring flags alone have hundreds of combinations; tests see the ones of the test files.',
  files=[O, P, V], mechanism=[('parse methods of types 1215, 2020 to 2023, 2026, 2028, 2033', O)], observe=['results of parse']),
 dict(id='C16', title='IACT payloads (photons, photo-electrons, offsets, profiles) are decoded exactly',
  statement='''For all objects written by the CORSIKA IACT extension, parsing a complete payload of any supported version returns exactly the stored
  values: compact photon bunches with the documented scale factors, long bunches as stored, emitter rows separated from photons, photo-electron lists by pixel,
  offsets, longitudinal and atmospheric profiles and input cards. Reading the bunches in chunks delivers the same rows in the same order, at most the requested
  number per chunk.''',
  over=['inputs'], text='all payload contents, supported versions, flags and counts', why='Tests compare sums of two files.',
  files=[IO, IP, V], mechanism=[('parse methods of types 1200 to 1216', IO)], observe=['results of parse', 'attributes of the objects']),
 dict(id='C17', title='Histograms are decoded with their own type, axes and contents',
  statement='''Every histogram of a histogram block is decoded with its title, id, bins, statistics and contents as stored, in one or two dimensions, integer or
  real, empty or filled, and the following histogram starts exactly behind it.''',
  over=['inputs'], text='all numbers of histograms, types, titles and bin counts', why='Tests look at one file with 9 histograms.',
  files=['src/eventio/histograms.py'], mechanism=[('parse', 'src/eventio/histograms.py')], observe=['result of parse']),
 dict(id='C18', title='Simulated events are assembled from exactly their own objects',
  statement='''The events delivered by a sim_telarray file are those of the file in order; each contains its own shower, Monte Carlo event, array event,
  photo-electron and particle data and nothing of its predecessor, a shower being shared by all its reuses. Run headers, histories, descriptions and histograms are
  collected under the telescope or run they belong to.''',
  over=['histories', 'inputs'], text='all sequences of top level objects', why='Tests read six files with the usual object order.',
  files=[S], state=[dict(name='current_event, current_mc_shower, current_obslev_particles, _current_calib_pe', meaning='event under construction', where=S)],
  mechanism=[('dispatch over object types', S), ('array and telescope event assembly', S)], observe=['SimTelFile iteration', 'attributes of SimTelFile']),
 dict(id='C19', title='Event selection drops exactly the unwanted events and telescopes',
  statement='''With a set of allowed telescopes, events contain exactly the telescope events and tracking positions of those telescopes; an event without data of any of them counts
  as untriggered. Untriggered events are dropped if and only if that is asked for, calibration events likewise. No other event or field changes by a selection.''',
  over=['configurations', 'histories'], text='all filter settings, telescope sets and event sequences', why='Tests use two filter settings on one file.',
  files=[S], mechanism=[('skip decision', S), ('telescope filter', S)], observe=['SimTelFile iteration']),
 dict(id='C20', title='A truncated file still delivers its last event once and then ends',
  statement='''When a sim_telarray file ends, regularly or by truncation, the event under construction is delivered exactly once and every further request ends the iteration;
  truncation produces a warning. Other errors are passed on to the caller.''',
  over=['crash_points', 'histories'], text='all truncation points and all numbers of further requests', why='Tests use one truncated file.',
  files=[S], state=[dict(name='_finished', meaning='no more objects', where=S)], mechanism=[('handling of the end of the file', S)], observe=['SimTelFile.__next__']),
 dict(id='C21', title='Monitoring data of delivered events never change',
  statement='''Each array event carries the monitoring and calibration data that were current when it was read, for exactly its telescopes. Later monitoring objects change only later
  events, never one that has been delivered.''',
  over=['histories'], text='all sequences of monitoring objects and events', why='The test files have one monitoring block.',
  files=[S], state=[dict(name='camera_monitorings, laser_calibrations, pixel_monitorings', meaning='latest data by telescope', where=S)],
  mechanism=[('copy when an event is made', S)], observe=['events of SimTelFile']),
 dict(id='C22', title='IACT files deliver each reuse as one event with its own data',
  statement='''Iterating over an IACT file delivers, for every shower and every reuse, one event with the header and end block of its shower, its own array offset, weight
  and impact position, and the photon bunches (with their emitters, if stored) of exactly its telescopes. Restarting the iteration delivers the same events again. In a truncated file
  the events of all complete showers are delivered before the iteration fails.''',
  over=['histories', 'inputs'], text='all numbers of showers, reuses and telescopes', why='Tests read two files.',
  files=[IF], mechanism=[('event generator', IF)], observe=['IACTFile iteration']),
 dict(id='C23', title='Files and processes are released on every path',
  statement='''Closing a file, leaving its context or dropping the last reference to it closes the underlying file and ends and collects the decompression process, also after
  errors, and closing twice is harmless. Temporary handles used to recognise the file type are closed.''',
  over=['histories', 'fault_sequences'], text='all ways to stop using a file', why='Leaks do not fail tests.',
  files=[B, 'src/eventio/file_types.py', S, IF], mechanism=[('finalizer', B), ('context managers', 'src/eventio/file_types.py')], observe=['close, context exit, deletion']),
 dict(id='C24', title='Compression is transparent',
  statement='''A plain, gzip or zstandard compressed file is recognised by its content and delivers the same objects, whichever way it is decompressed. A stream that cannot go back delivers bytes by
  absolute position, advances exactly by what it delivers and refuses to go back instead of delivering other bytes.''',
  over=['inputs', 'configurations'], text='all contents, forward and backward seeks', why='Tests read three compressed files straight through.',
  files=[B, 'src/eventio/file_types.py'], mechanism=[('magic bytes', 'src/eventio/file_types.py'), ('forward seeking pipe', B)],
  observe=['EventIOFile', 'file type tests']),
 dict(id='C25', title='Searches visit exactly the requested objects in file order',
  statement='''Searching a file for a type or a nesting of types yields each matching object exactly once, in depth first file order, with its nesting level where that is reported, up to the requested
  number. In a truncated file the complete matches are
  delivered first; searches for top level objects and those that return a list then warn, the others fail.''',
  over=['inputs'], text='all object trees', why='Tests search one file.', files=['src/eventio/search_utils.py'],
  mechanism=[('recursive generators', 'src/eventio/search_utils.py')], observe=['functions of eventio.search_utils']),
 dict(id='C26', title='Cutting a file keeps a prefix of whole objects',
  statement='''From a complete file, the cut tool writes an exact prefix of its (decompressed) content that ends at the end of a top level object and is as long as possible without exceeding the requested size, and says so if
  nothing fits. Sizes are numbers of bytes, or with suffix k, M or G multiples of powers of 1024. The output is gzip compressed if its name ends with .gz; it may replace the input.''',
  over=['inputs', 'configurations'], text='all files and sizes', why='There is no test of the tool.', files=['src/eventio/scripts/cut_eventio_file.py'],
  mechanism=[('search for the last object that fits', 'src/eventio/scripts/cut_eventio_file.py')], observe=['output file of the tool']),
 dict(id='C27', title='Reading never modifies anything',
  statement='''No operation of the package, except the output that the cut and plot tools are asked for, opens a file for writing, creates, renames or deletes files, or starts a program other than the
  decompressor on the file being read.''',
  over=['programs', 'inputs'], text='all call paths of the package', why='Absence of effects cannot be tested.', files=['src/eventio'],
  mechanism=[('files are opened for reading only', B)], observe=['file system effects']),
 dict(id='C28', title='The printing tools report what is in the file',
  statement='''The structure tool lists the objects in depth first file order, indented by their nesting level; of a series of objects of one known class that directly follow each other in that order it lists only
  the first ones, up to the requested number, and states how many it left out. The object information tool reports, as a table or JSON, exactly how many objects of each type, version, level and class
  there are (the types of all telescopes of one kind taken together). For truncated files both report everything that is complete and mention the truncation. The history tool prints every line of
  the history at the beginning of the file with its time, and the metaparam tool the global and all telescope values of the first series of such objects, also as JSON.''',
  over=['inputs', 'configurations'], text='all object trees, versions and sizes of the file; all histories and metaparams', why='There is one test that only checks that a tool does not fail.',
  files=['src/eventio/scripts/print_structure.py', 'src/eventio/scripts/print_object_information.py', 'src/eventio/scripts/print_simtel_history.py', 'src/eventio/scripts/print_simtel_metaparams.py'],
  mechanism=[('counting of repetitions', 'src/eventio/scripts/print_structure.py'), ('counters of objects', 'src/eventio/scripts/print_object_information.py')], observe=['standard output of the tools']),
]

NOT_APPLICABLE = [
]
NOTES = 'Static analysis only: nothing of the repository is executed. See DESIGN.md.'
