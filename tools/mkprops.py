"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
DS, FS, OB, AP, FI, CL, DI, TX = ('pdfsyntax/' + x + '.py' for x in
    ('docstruct', 'filestruct', 'objects', 'api', 'filters', 'cli', 'display', 'text'))


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': None}})


p('S01', 'A save that reports success has delivered every byte',
  'When saving a document to a named file or to standard output returns normally, the destination holds exactly the complete bytes of the saved document, and nothing else, however the operating system split, shortened, delayed or interrupted the writes, and also when standard output is unbuffered. '
  'When a write, flush or close fails so that bytes are missing, the save (called as a function or through the command line) ends in an error and is never reported as a success. '
  'The file it opened is closed in both cases, and the same document can be saved again afterwards with complete and identical bytes.',
  ['fault_sequences', 'inputs', 'histories', 'configurations'],
  'Every document and edit history, every destination (new file, longer or shorter existing file, buffered or unbuffered standard output) and every sequence of short writes, interrupted calls, no-space, I/O-error, broken-pipe and failing-close faults.',
  'No test writes a file or makes a write fail; the fault sequence is a quantifier that tests on a real, healthy disk never sample.',
  [AP, CL], [('byte assembly then open/write/close', AP + ' writefile'), ('compress command', CL + ' compress_file')],
  ['bytes at the destination after the call', 'exception or exit status of the call'])

p('S02', 'A save that fails before writing leaves the existing file untouched',
  'A save to a file that already exists either begins writing with the complete new contents already at hand or leaves the existing file byte for byte as it was: when reading the source document fails, memory runs out, the caller is interrupted or a command is refused while the new contents are still being prepared, the old file is unchanged. '
  'This also holds when the destination is the very file the document was read from, and then a successful save still holds the whole original contents followed by the update.',
  ['fault_sequences', 'crash_points', 'histories'],
  'Every point before the first byte is written at which a read error, allocation failure or interruption can strike, for every document, and for destinations equal to or different from the source.',
  'Tests never overwrite a file, never inject a failure while a save is being prepared, and cannot enumerate the interruption points.',
  [AP, DS, FS, CL], [('contents assembled in memory before the destination is opened', AP + ' writefile'), ('source read through the data provider', FS + ' bdata_provider')],
  ['bytes at the destination after a failed save'])

p('S03', 'Saving appends: every earlier revision stays in the file, intact',
  'Saving an edited document that came from a file produces the original bytes unchanged followed by one well-formed incremental update per revision made since, and saving an unedited one reproduces the original bytes exactly. '
  'Cutting the saved file at the end of any earlier revision gives back that revision, with the objects, trailer references and pages it had, for this library and for any conforming reader.',
  ['histories', 'inputs', 'configurations'],
  'Every source layout (classic table, cross-reference stream with or without object streams, hybrid, linearized, one or many revisions) and every history of edits, commits, saves and reloads.',
  'The tests look at one sample file with one prepared update and never write; the guarantee is about arbitrary histories across restarts.',
  [AP, DS, FS], [('revision byte streams', FS + ' build_revision_byte_stream'), ('revision bookkeeping', DS + ' commit'), ('cut position', FS + ' eof_cut')],
  ['saved bytes', 'documents opened from prefixes of the saved bytes'],
  [('data', 'per revision: where the bytes of that revision end or its appended bytes', DS)])

p('S04', 'A torn save never opens as a document that never existed',
  'If the process or the machine stops while a save that extends a file is being written, so that only part of the appended bytes survives, opening the remains either fails with an error within bounded work or yields exactly one of the revisions that existed - never a mixture of two revisions, an older state presented with newer objects, or a state changed by bytes of the update that never completed. '
  'When all the bytes up to the end of the last complete update survive, opening succeeds with that update; when none of the appended bytes survives, the previous revision opens unchanged.',
  ['crash_points', 'histories', 'fault_sequences'],
  'Every crash point in the appended bytes, for torn tails and lost or zero-filled trailing blocks, every source layout and edit history.',
  'Tests open only complete files; there is one crash point per byte of every possible update.',
  [FS, AP, DS], [('search for the last startxref', FS + ' build_xref_sequence'), ('end-of-file cut', FS + ' eof_cut')],
  ['result of opening the surviving bytes'])

p('S05', 'What was edited is what is read back after save and restart',
  'After any sequence of object additions, updates and deletions, page rotations, annotations, catalog version updates and commits, saving and reopening the document in a fresh process - any number of times - gives every object the value it had when saved: numbers, strings, names, arrays, dictionaries, references, and streams with their exact data. '
  'Deleted objects stay deleted, untouched objects are unchanged, no object is lost or invented, and an independent strict reader of the PDF file format reads the same objects from the saved bytes.',
  ['histories', 'inputs', 'configurations'],
  'Every history of edits, commits, saves and process restarts, over every supported file layout and stream filter.',
  'The tests contain no save and reload at all; value, layout and history combinations are unbounded.',
  [DS, FS, OB, AP, FI], [('change tracking', DS + ' changes'), ('serialization', OB + ' serialize'), ('cross-reference writing', FS + ' format_xref_table, format_xref_stream'), ('index reconstruction', FS + ' build_index_from_xref_sequence')],
  ['object values, trailer, page list after reopening', 'saved bytes read by an independent parser'],
  [('index', 'per revision and object: where it is and its versions', DS), ('cache', 'object values of the current revision', DS)])

p('S06', 'Documents are immutable: no operation changes an existing document',
  'A document obtained earlier keeps answering every question with the same values - objects, trailer, pages, metadata, structure, number of modified objects - whatever operations are later applied to it, to documents derived from it, or to documents that share its history, and its saved bytes stay the same. '
  'An operation applied to a document therefore gives the same result no matter which other operations were performed on it or its relatives before.',
  ['histories', 'schedules'],
  'Every interleaving of operations over a family of related documents (edits, page operations, commit, rewind, squash, compress, concatenation, saves, reads).',
  'Tests never apply two operations to one document and look at the first again; the property quantifies over all interleavings of sessions on shared structure.',
  [DS, AP, FS], [('shallow copies of index, cache and data', DS + ' copy_doc'), ('defensive copies on read', DS + ' get_object')],
  ['all read functions and saved bytes of previously obtained documents'],
  [('index', 'shared between relatives', DS), ('cache', 'shared between relatives and filled lazily', DS)])

p('S07', 'What a document contains does not depend on the order of reading',
  'The value of an object, and the result of every operation and save, is the same whatever objects were read before, in whatever order and however often, including none at all. '
  'In particular an object that was edited, superseded by a later revision or deleted never reappears because some other object was read.',
  ['schedules', 'histories', 'inputs'],
  'Every order of lazy loads before, between and after edits, for documents whose objects are spread over plain objects and object streams of several revisions.',
  'Lazy loading makes the outcome depend on the read order; tests read one or two objects in one fixed order.',
  [DS, OB], [('lazy cache fill', DS + ' memoize_obj_in_cache'), ('object streams', OB + ' parse_object_stream')],
  ['object values and saved bytes under different read orders'],
  [('cache', 'lazily filled object values', DS)])

p('S08', 'Threads sharing a document get the answers a single thread would get',
  'When several threads use the same document or related documents at once - reading, editing, page operations, committing, saving - every thread gets exactly the results it would get running alone, under every interleaving of their steps. '
  'No thread observes a partly loaded object or the effect of another thread\'s edit, and the shared documents are unchanged afterwards.',
  ['schedules'],
  'Every interleaving, at the granularity of executed source lines, of two to four threads working on shared immutable documents with lazily filled caches.',
  'Documents are advertised as immutable values, yet reads fill a shared cache; the tests have no threads and could not control their schedule.',
  [DS, AP, FS], [('lazy cache fill', DS + ' memoize_obj_in_cache'), ('copy on edit', DS + ' copy_doc'), ('page tree walk', DS + ' flat_page_tree')],
  ['per-thread results', 'documents after all threads finished'],
  [('cache', 'shared lazily filled list', DS)])

p('S09', 'Unrelated documents in one process do not influence each other',
  'The outcome of working with a document is the same whether it is the first one handled by the process or comes after, or interleaved with, any number of other documents, including damaged ones and ones whose handling failed. '
  'Nothing - inherited page attributes, default arguments, cached data, mappings - leaks from one document into another.',
  ['histories', 'schedules'],
  'Every interleaving of sessions on unrelated documents inside one process, with failures and damaged inputs among them.',
  'Each test handles one document in a fresh class setup; process-wide leaks appear only for particular successions of documents.',
  [DS, AP, FS, CL], [('function defaults and module state', DS + ' flat_page_tree'), ('per-document providers', FS + ' bdata_provider')],
  ['results of one session alone versus interleaved with others'])

p('S10', 'Read faults never turn into wrong data, and all ways to open a file agree',
  'Opening the same contents from a path, a file object or bytes, in the read-at-once or the read-on-demand mode, gives documents that answer every question identically, however the system splits the reads. '
  'When a read fails, the running operation ends in an error and never returns wrong, partial or stale data, and once reads work again the same document or a new attempt gives the correct answers.',
  ['fault_sequences', 'configurations', 'inputs'],
  'Every sequence of short reads, interrupted calls and I/O errors, at opening time and at each later on-demand read, for every layout and both modes.',
  'Tests read small healthy files in one piece; the on-demand mode is tested only for its length.',
  [FS, AP, DS], [('data provider', FS + ' bdata_provider'), ('composite provider', DS + ' merge_fdata'), ('lazy cache fill', DS + ' memoize_obj_in_cache')],
  ['read results after faults', 'results of different opening paths'])

p('S11', 'Commit closes a revision and rewind returns to the previous one, exactly',
  'Committing changes no object, page or trailer reference, opens exactly one new empty revision when there are changes and does nothing when there are none; the number of revisions and of modified objects reported always matches the history. '
  'Rewinding gives back the document as it was when the previous revision was closed, for revisions read from the file and for those made in this session, and work continued from there is saved and reloaded correctly, as if the abandoned revisions had never been made.',
  ['histories'],
  'Every history of edits, commits, rewinds, saves and reloads, starting from blank documents and files of one or more revisions in any layout.',
  'No test commits or rewinds; the histories are unbounded and the defects need several steps.',
  [DS, AP, FS], [('commit', DS + ' commit'), ('rewind', DS + ' rewind'), ('change list', DS + ' changes')],
  ['object values, revision count and change count after each step', 'saved bytes'])

p('S12', 'Page operations behave like operations on a list of pages',
  'Selecting pages by index, slice or set, removing, iterating, concatenating two documents on either side and rotating give the document whose list of pages - count, order, contents and effective attributes, inherited ones included - is what the same operation on a plain list of pages gives. '
  'This holds for any composition of these operations, and still holds after saving and reopening; an index beyond the pages is refused as on a list, iteration yields every page once. '
  'Selection never returns pages that were left out, and keeps everything the kept pages, the catalog and the information dictionary refer to.',
  ['histories', 'inputs'],
  'Every composition of page operations over documents with arbitrary nested page trees, inherited attributes, shared resources, links between pages, and any file layout.',
  'The tests cover object dependencies of one sample and no page operation; trees and compositions are unbounded.',
  [DS, AP], [('page removal', DS + ' remove_pages, keep_pages'), ('concatenation', DS + ' concat'), ('dependency closure', DS + ' dependencies'), ('page listing', DS + ' flat_page_tree')],
  ['page count, page order, page attributes and contents, before and after reload'])

p('S13', 'Squash and compress keep the content',
  'Squashing or compressing a document keeps its pages, their contents and attributes, the catalog, the information dictionary and every object in use with the same value up to renumbering, and drops deleted objects, old revisions and the cross-reference and object streams of the old layout. '
  'Changing stream filters, grouping objects into streams and forcing a cross-reference stream change how objects are stored, as asked for, and no value; compress leaves no stream it can encode unencoded, and streams whose data cannot be decoded stay as they are. '
  'The result can be edited, saved, reopened, squashed or compressed again, read by any conforming reader, and concatenated like any other document.',
  ['histories', 'inputs', 'configurations'],
  'Every document reachable by edits, from any layout, and every composition of squash, compress, edit, save and reload.',
  'There is no test of either operation; they rewrite every object and every reference of arbitrary documents.',
  [DS, AP, FS, OB], [('squash', DS + ' squash, defragment_map'), ('compress', AP + ' compress'), ('object streams', DS + ' group_obj_into_stream'), ('reference retargeting', OB + ' deep_ref_retarget')],
  ['object graph reachable from the trailer before and after', 'saved bytes read by an independent parser'])

p('S14', 'Opening a damaged file ends in bounded work, and harms nothing',
  'Opening, inspecting or listing the contents of a file damaged in storage or transfer - truncated, with flipped, zeroed, repeated or exchanged blocks - ends within an amount of work proportional to a modest power of its size, with a result or an error, and never runs forever or recurses without bound. '
  'The same holds for editing what could be opened, for operations on its pages and for saving it. '
  'The damaged file itself is left as it was and the process goes on to handle intact files correctly.',
  ['inputs', 'fault_sequences'],
  'Every way in which storage or transfer faults damage the bytes of a well-formed file of any layout.',
  'Tests contain one file with one wrong offset; damage is unbounded and non-termination needs specific bytes.',
  [FS, OB, DS, AP, CL], [('cross-reference chain', FS + ' build_xref_sequence'), ('tokenizer progress', OB + ' next_token'), ('file walk', FS + ' file_object_map'), ('page tree walk', DS + ' flat_page_tree')],
  ['steps executed (simulated time) until return', 'bytes of the input file'])

p('S15', 'Inspection commands tell the truth, write nothing, and fail loudly',
  'The overview, fonts, text, disasm, browse and hexdump commands report what is in the file - revisions, pages, version, layout kind, encryption, metadata as the text it stands for, fonts in use, page text row by row in reading order, every object, region and cross-reference entry, unindexed objects and wrong entries marked as such, and bytes - and change no file. '
  'The page made by browse shows every object with its parts and data as they are, whatever characters they hold, and its links lead to what they name. '
  'If the input cannot be read or the output cannot be delivered completely, the command does not end as a success; otherwise its whole output is delivered, identical from run to run, however the reads of the file and the writes of the buffered standard output are split.',
  ['inputs', 'fault_sequences', 'configurations'],
  'Every supported layout and document, every split of reads and writes, and every read, write and flush failure while a command runs.',
  'No test runs a command; output delivery faults and the agreement with arbitrary documents are out of their reach.',
  [CL, AP, DS, DI], [('command dispatch', CL + ' main'), ('structure and metadata', AP + ' structure, metadata, fonts'), ('file map', FS + ' file_object_map'), ('browse page', DI + ' build_html')],
  ['standard output and exit status of a command', 'file system before and after'])

p('S16', 'Interrupted operations leave documents sound and can be retried',
  'If an operation is cut short at any point by an interruption or a failing memory allocation, the error reaches the caller, every existing document still answers and saves exactly as before, and repeating the operation gives the result it would have given had nothing happened; this includes opening files and the inspection commands. '
  'An interruption or allocation failure is never absorbed into a normal-looking but wrong result.',
  ['fault_sequences', 'crash_points', 'histories'],
  'Every executed source line of every operation as the point at which an asynchronous interruption or allocation failure strikes, single or repeated.',
  'Tests never interrupt an operation; there are thousands of points per operation and shared lazily filled state between them.',
  [DS, AP, FS, FI, OB], [('copy before change', DS + ' copy_doc'), ('lazy cache fill', DS + ' memoize_obj_in_cache'), ('exception handling in filters', FI + ' decode_stream, encode_stream')],
  ['all read functions and saved bytes after the interruption', 'result of the retried operation'])

p('S17', 'The same steps give the same bytes in every run',
  'Carrying out the same steps on the same input produces byte-identical saved files and identical answers in every process: independent of hash randomization, object identities, the clock, time zone, locale and the environment.',
  ['schedules', 'configurations', 'histories'],
  'Every edit history, under varied hash seeds, clocks, environments and memory layouts of the process.',
  'A test run is one process with one hash seed; set-ordered code paths (dependency sets, page sets, object groups) differ only between processes.',
  [DS, AP, FS], [('iteration over sets of references and pages', DS + ' remove_pages, dependencies, group_obj_into_stream')],
  ['saved bytes and printed output across processes'])

NA = {}


def na(id, title, statement, text, why, files, mech, observe, reason):
    p(id, title, statement, ['inputs'], text, why, files, mech, observe)
    NA[id] = reason


na('P01', 'Parsing and serializing values are inverse to each other',
   'Any value made of PDF basic types serializes to text that parses back to the same value, for all nestings, string escapes, numbers and spacing.',
   'Every value and every textual spelling the file format allows.',
   'Tests check a few dozen literals of an unbounded grammar.',
   [OB], [('tokenizer', OB + ' next_token'), ('parser', OB + ' parse_obj'), ('serializer', OB + ' serialize')], ['parse and serialize results'],
   'A pure function of its argument: no schedule, clock, I/O, fault or second party can influence it, so simulation has nothing to decide; property-based testing or proof is the fitting family. (Values do pass through it inside the S05 histories, which do not claim the whole grammar.)')
na('P02', 'Stream filters decode what they encode',
   'For every supported filter and filter chain, with or without predictors, decoding the encoded form of any data gives the data back.',
   'Every byte string, filter chain and predictor parameter.',
   'Tests decode one stream.',
   [FI], [('filters', FI + ' encode_stream, decode_stream, decode_predictor')], ['decoded bytes'],
   'Pure computation on bytes without schedule, time, I/O or faults to inject; only its handling of failing allocations involves faults and that part is decided under S16.')
na('P03', 'Text strings decode per PDFDocEncoding and UTF-16',
   'Every text string object, in literal or hexadecimal form and any encoding the format defines, is presented as the text it stands for.',
   'Every byte string in every string form.',
   'A handful of literals in tests.',
   [TX], [('text strings', TX + ' text_string')], ['decoded text'],
   'A pure function from bytes to text with nothing for a scheduler or fault injector to control.')
na('P04', 'Extracted text follows the position of the glyphs on the page',
   'Text extraction places every shown string of a page at the row and column order its text matrix dictates, decoded with the font in force.',
   'Every content stream and font.',
   'Three matrix tests and no page extraction.',
   ['pdfsyntax/graphics.py', 'pdfsyntax/layout.py', TX, AP], [('content interpretation', 'pdfsyntax/graphics.py'), ('layout', 'pdfsyntax/layout.py basic_spatial_layout')], ['extracted text'],
   'Single-threaded pure geometry over an in-memory stream: no nondeterminism, so a simulator would degenerate to input fuzzing. (S15 checks only that the text command delivers each page\'s text in page order under I/O faults.)')
na('P05', 'The browse page escapes everything it shows',
   'Nothing contained in a PDF file can break out of the text it is shown as in the HTML made by the browse command.',
   'Every object content.',
   'There is no test of the HTML.',
   [DI, CL], [('HTML building', DI + ' build_html')], ['HTML text'],
   'A pure formatting function of the parsed document; neither faults nor schedules can change its outcome.')
na('P06', 'Disassembly accounts for every byte of a well-formed file',
   'The regions listed by disassembly cover a well-formed file from the first to the last byte without overlap, each with its true kind, position and size.',
   'Every well-formed file.',
   'Not tested.',
   [FS, OB, CL], [('file walk', FS + ' file_object_map'), ('regions', OB + ' parse_region')], ['region list'],
   'A deterministic scan over bytes in memory; the parts with I/O (delivery of the listing, truthfulness of listed objects under read faults) are decided under S15, termination on damaged files under S14.')
na('P07', 'Markdown documents render to the HTML their syntax means',
   'The Markdown to HTML converter used for the project pages yields well-formed HTML equivalent to its source.',
   'Every Markdown text.',
   'Not tested.',
   ['pdfsyntax/markdown.py', 'htmldoc.py'], [('converter', 'pdfsyntax/markdown.py')], ['HTML text'],
   'A pure text transformation with no concurrency, time, I/O or multi-party behaviour.')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
if __name__ == '__main__':
    print(len(P), 'properties;', len(NA), 'not applicable')
