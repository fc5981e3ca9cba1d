#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after changing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, tech='', note='', na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, na=na, state=state))


T = 'static analysis: '
STD = ('Every obligation is decided from the compiler front end\'s view of the current source; trusts the '
       'clang AST/CFG, the models of the C and C++ library in engine/models.py, and that sizes stay below 2^31. ')

# ------------------------------------------------------------------ errors and inputs
prop('E01', 'Failures are reported, never swallowed',
     'Whenever a step of initialisation, file reading or processing fails (a file cannot be opened, a read '
     'comes up short, a value is refused), the operation that performed the step reports failure to its own '
     'caller, all the way to the application. No operation reports success, and no loop goes on as if the '
     'step had succeeded, after one of its steps failed.',
     ['fault_sequences', 'inputs'], 'every failing step at every point of every operation',
     'The tests exercise only successful loads of good files plus a handful of errors; the quantifier is over '
     'each of about 110 fallible call sites failing.',
     ['src/util.cc', 'src/am.cc', 'src/nnet.cc', 'src/fst.cc', 'src/matrix.cc', 'src/vector.cc',
      'src/symbol_table.cc', 'src/configuration.cc', 'src/pcm_reader.cc', 'src/ce_stt.cc', 'src/main.cc'],
     [('status propagation', 'PK_CHECK_STATUS and explicit status tests in every loader'),
      ('file primitives', 'ReadableFile::Open/Read/ReadLine/ReadAndVerifyString, StringToLong'),
      ('command line tool', 'CheckStatus/Fatal in main.cc')],
     'assumption-pruned reachability over inlined control-flow graphs (assume one step failed, explore the rest)',
     'Each fallible call site is assumed to fail and all continuations are explored; a caller may only '
     'return a failing outcome.')
prop('E02', 'Malformed model, word-list and audio files are refused',
     'A model, language-model, word-list or audio file is accepted only if every tag, count, dimension, index '
     'and label in it is usable with the rest of that file: a wrong tag, a negative count or dimension, a '
     'vector or graph section size that disagrees with the contents, rows or layer parameters of different '
     'dimensions, an out-of-range state or arc index, an unknown layer type, an unusable symbol id or an '
     'inconsistent audio header is refused with an error instead of being accepted.',
     ['inputs'], 'every byte content of every kind of input file',
     'Tests load a few well-formed fixtures; rejecting every malformed value cannot be sampled.',
     ['src/fst.cc', 'src/vector.cc', 'src/matrix.cc', 'src/nnet.cc', 'src/am.cc', 'src/symbol_table.cc',
      'src/pcm_reader.cc'],
     [('header checks', 'Fst::Read, Vector::Read, Matrix::Read, Nnet::Read, SpliceLayer/NarrowLayer::Read, '
       'ReadPcmHeader, SymbolTable::Read, AcousticModel::Read')],
     'assumption-pruned reachability on the values read from each file',
     'For each value a loader reads, the unacceptable values are assumed and every continuation must end in failure.')
prop('E03', 'Every failing call leaves its own error message',
     'Whenever a call of the C interface reports failure, the text returned by the last-error call is the '
     'message of that very failure, copied with its length bounded by the fixed buffer and always terminated. '
     'A call that succeeds does not need to change it, and a failing call never leaves the previous or an '
     'empty message.',
     ['histories', 'fault_sequences'], 'every failing path of every call of the C interface, after any history',
     'No test calls the C interface on failing inputs.',
     ['src/ce_stt.cc', 'src/strlcpy.cc'],
     [('last error', 'error_message and the pasco_strlcpy calls in ce_stt.cc')],
     'must-write dataflow on the error buffer over every failing return path',
     'Every return of a failing value must be dominated by a bounded copy of that failure\'s text into the buffer.')
prop('E04', 'No exception escapes the C interface',
     'No call of the C interface lets a C++ exception (other than out-of-memory) escape to the C caller, '
     'whatever the configuration, model, word-list and audio files contain: text that is not a number, a '
     'missing element or an unusable length is reported as a failure or handled, not thrown.',
     ['inputs'], 'every content of every file and every configuration value',
     'Exceptions only occur on inputs tests do not contain.',
     ['src/ce_stt.cc', 'src/util.cc', 'src/configuration.cc', 'src/symbol_table.cc', 'src/fst.cc'],
     [('C interface', 'the extern "C" functions of ce_stt.h and everything reachable from them')],
     'call-graph reachability of throwing operations, with length and position arguments proven in range',
     'Trusts the list of throwing library operations in rules/e04.py; iterator-range constructions are not proven.')
prop('E05', 'Calls on a missing or unfinished utterance are rejected',
     'Feeding audio to, or ending the stream of, an utterance handle that is null or whose internal state or '
     'recogniser is missing is rejected before anything is read through it, and audio data that is null or of '
     'non-positive size is refused with an error without changing the utterance\'s audio state.',
     ['inputs', 'histories'], 'every handle and buffer argument',
     'Tests never pass invalid handles.',
     ['src/ce_stt.cc', 'src/pcm_reader.cc'],
     [('handle check', 'CheckParamUtt in ce_stt.cc'), ('buffer check', 'WaveReader::Process')],
     'must-facts (non-null before dereference) and assumption-pruned reachability',
     'Every dereference through the handle must be dominated by the corresponding null test.')
prop('E06', 'Text files are read uniformly line by line',
     'Each line of a text file is delivered exactly once and whole, whatever its length, with only its line '
     'ending removed, whether it ends with LF, CRLF or the end of the file; end of file is not an error and '
     'a final line without newline is not lost.',
     ['inputs'], 'every text file content',
     'The tests read one short fixture file.',
     ['src/util.cc', 'src/symbol_table.cc', 'src/configuration.cc', 'src/main.cc'],
     [('line reader', 'ReadableFile::ReadLine, ReadableFile::Eof and its loops')],
     'value-flow equations over the line reader and loop-shape obligations at its callers',
     'Trusts the library contract of fgets/feof.')
prop('E07', 'Diagnostics have one placeholder per value',
     'Every message built from a template contains exactly one placeholder for each value supplied with it, '
     'so that no diagnostic loses a value, prints a stray placeholder or prints an address instead of text.',
     ['inputs'], 'every diagnostic, including those no test triggers',
     'Messages on error paths are never looked at by tests.',
     ['src/util.h', 'src/ce_stt.cc', 'src/fst.cc', 'src/configuration.cc', 'src/pcm_reader.cc', 'src/nnet.cc'],
     [('formatter', 'util::Format and printf call sites')],
     'constant propagation of templates to every formatting call site and argument counting',
     'All formatting call sites reachable in any translation unit are counted.')
# ------------------------------------------------------------------ files and configuration
prop('F01', 'Model converters and loaders agree on the file formats',
     'Each binary file written by the conversion scripts is laid out as the loader reads it: the same tags, '
     'the same sequence of field types, the same layer-type numbers and per-layer fields, and section sizes '
     'that equal what the loader computes.',
     ['programs', 'inputs'], 'every model that the converters can emit',
     'No test runs the converters.',
     ['tool/convert_am.py', 'tool/convert_cmvn_stats.py', 'tool/convert_unigram.py', 'tool/convert_fstfmt.py',
      'src/nnet.cc', 'src/nnet.h', 'src/matrix.cc', 'src/vector.cc', 'src/fst.cc'],
     [('writers', 'struct.pack sequences in tool/*.py'), ('readers', 'the Read methods of the loaders')],
     'cross-language format extraction (Python AST against the order and types of reads in the C++ loaders)',
     'Compares the sequences of fields; numeric contents are not compared.')
prop('F02', 'Configuration lookup is uniform',
     'A configuration key is found regardless of letter case and of spaces around key and value, a relative '
     'path is resolved against the directory of the configuration file and an absolute path is used as is, '
     'a missing mandatory key is an error while a missing optional key yields exactly the supplied default, and an '
     'integer key yields the number written or an error.',
     ['configurations'], 'every configuration file and key',
     'A single fixture configuration is tested.',
     ['src/configuration.cc', 'src/configuration.h', 'src/util.cc'],
     [('lookup', 'Configuration::Read and the Get* methods')],
     'value-flow equations over the configuration reader and lookups',
     'Trusts the models of std::string and std::unordered_map.')
prop('F03', 'Accepted audio formats are exactly the decoded ones',
     'An utterance is created only for mono 16 kHz audio with 8, 16 or 32 bits per sample, and for each '
     'accepted width every sample is decoded with that width, little-endian and signed, in order; every other '
     'format is refused.',
     ['inputs'], 'every audio format and sample value',
     'Tests cover one 16-bit file.',
     ['src/pcm_reader.cc', 'src/pcm_reader.h', 'src/ce_stt.cc'],
     [('format check', 'WaveReader::SetFormat'), ('decoding', 'WaveReader::Process')],
     'assumption-pruned reachability on format fields and value-flow of each decoded sample',
     'Trusts the target\'s little-endian representation.')
# ------------------------------------------------------------------ streaming and isolation
prop('S01', 'Utterances never affect each other or the recogniser',
     'Creating, feeding, finishing or destroying one utterance changes nothing that another utterance or the '
     'recogniser can observe: the recogniser\'s models are only read, and the only process-wide state written '
     'is the last-error text.',
     ['schedules', 'histories'], 'every interleaving and sequence of calls on several utterances of one recogniser',
     'Tests decode one utterance at a time.',
     ['src/ce_stt.cc', 'src/am.cc', 'src/nnet.cc', 'src/fbank.cc', 'src/srfft.cc', 'src/fst.cc', 'src/decoder.cc',
      'src/symbol_table.cc', 'src/cmvn.cc'],
     [('shared models', 'everything reachable from the recogniser structure'),
      ('utterance state', 'the per-utterance structure')],
     'interprocedural alias and side-effect analysis (which roots each call may write)',
     'Flow-insensitive points-to summaries for every function; library operations by model.')
prop('S02', 'Decoding is deterministic',
     'The result of decoding depends only on the model files and the audio given: no clock, environment, '
     'random source, address, uninitialised variable or unordered iteration can influence it.',
     ['histories', 'inputs'], 'every run of the same inputs',
     'Running a test twice cannot exclude dependence on uninitialised or ambient state.',
     ['src/decoder.cc', 'src/am.cc', 'src/fbank.cc', 'src/pcm_reader.cc', 'src/nnet.cc', 'src/fst.cc'],
     [('pruning sample', 'the fixed-seed generator of Decoder::GetCutoff'),
      ('initialisation', 'constructors of all classes')],
     'reachability of nondeterminism sources plus definite-initialisation dataflow',
     'Heap contents of buffers are covered only as far as constructors and resizing initialise them.')
prop('S03', 'Splitting the audio does not lose, repeat or reorder data',
     'However the audio bytes are divided over calls, every sample is decoded once and in order: bytes that do '
     'not fill a sample, samples that do not fill a frame and frames that do not fill a batch are kept, and '
     'exactly what has been consumed is removed at each stage.',
     ['histories', 'inputs'], 'every division of every audio stream into calls',
     'Tests feed a few chunk sizes of one file.',
     ['src/pcm_reader.cc', 'src/fbank.cc', 'src/am.cc', 'src/ce_stt.cc'],
     [('byte buffer', 'WaveReader::Process'), ('sample buffer', 'Fbank::Process'),
      ('frame buffer', 'AcousticModel::Process/AppendFrame')],
     'symbolic value equations for each buffer (kept + consumed = received) over all paths',
     'Conservation is shown per call for each buffer, which composes over any sequence of calls.')
prop('S04', 'End of stream flushes everything and stores the final result',
     'Ending the stream pushes every buffered frame through the acoustic model, with the first and last frame '
     'repeated to fill the left and right context, feeds every resulting score row to the decoder, and then '
     'stores the final best hypothesis, also when no further score was produced.',
     ['histories', 'inputs'], 'every stream length, including empty and shorter than a batch',
     'Tests cover one or two stream lengths.',
     ['src/ce_stt.cc', 'src/am.cc', 'src/decoder.h'],
     [('flush', 'ce_stt_end_of_stream, AcousticModel::EndOfStream'), ('padding', 'AcousticModel::Process')],
     'must-reach and ordering analysis plus value equations for padding and batch sizes',
     'Shown for symbolic context sizes and buffer lengths.')
# ------------------------------------------------------------------ decoder
prop('D01', 'Path cost is the exact sum of its parts',
     'Every new search token costs its predecessor\'s cost plus the arc weight, plus the negated scaled '
     'acoustic score of the arc\'s input label on emitting arcs only, plus the language-model correction when '
     'one is configured; each part is counted exactly once, and the label and states come from the same arc.',
     ['inputs'], 'every arc of every graph, with and without a second language model',
     'Tests compare one decoding result.',
     ['src/decoder.cc'], [('propagation', 'Decoder::ProcessEmitting, ProcessNonemitting, LogLikelihood, PropogateLm')],
     'symbolic value equation for the cost, state and label of each inserted token',
     'Exact algebraic equality of the cost term (reals, not rounding).')
prop('D02', 'Only hopeless paths are pruned and the cheapest path survives',
     'When two paths meet in the same state the cheaper one is kept, a path is dropped only if its cost '
     'exceeds the current beam limit, on each frame the limit is always the beam above the graph-and-acoustic cost '
     'of a path met on that frame (measured before the second language model\'s correction is added), or tighter only '
     'when the beam is over-full, every token and arc of the beam is considered and re-expanded when it improves, and emitting arcs consume exactly one frame while other arcs consume none.',
     ['inputs', 'histories'], 'every graph, score matrix and order of arcs',
     'Pruning decisions depend on data the tests do not contain.',
     ['src/decoder.cc'], [('recombination', 'Decoder::InsertTok'), ('beam', 'GetCutoff, ProcessEmitting, ProcessNonemitting')],
     'assumption-pruned reachability on cost comparisons and value equations for the limits',
     'The quality of the sampled beam limit for over-full beams is out of reach and excluded.')
prop('D03', 'The reported result is the best path, in spoken order',
     'The reported words are those of the cheapest path, in spoken order, each once; final-state costs '
     '(including the second language model\'s) are added once and only after the end of stream, unreachable '
     'finals are excluded, and the reported score belongs to the same path.',
     ['inputs', 'histories'], 'every beam content, before and after the end of stream',
     'Tests look at one utterance.',
     ['src/decoder.cc', 'src/ce_stt.cc'], [('back trace', 'Decoder::BestPath'), ('text', 'StoreHypText')],
     'value equations over the selection loop, the trace loop and the text construction',
     'Ties between equal costs may be broken either way.')
prop('D04', 'Second language-model scores are exact differences with back-off',
     'The correction for a word is the large model\'s back-off score for that word minus the small model\'s '
     'score of the same word, where backing off adds each back-off weight once and follows its destination; '
     'the final correction is the same for the end symbol, and the score cache never returns an entry for '
     'another state or word.',
     ['inputs', 'histories'], 'every model pair, state, word and cache history',
     'Tests use tiny models that hit few back-off and cache cases.',
     ['src/fst.cc', 'src/fst.h'], [('difference', 'DeltaLmFst'), ('back-off', 'LmFst::GetArc/Final'), ('cache', 'CachedFst::GetArc')],
     'symbolic value equations per path, cache key/payload consistency by must-facts',
     'Trusts the file contents to be sorted by label (checked by no loader).')
prop('D05', 'State identity and the token index are exact',
     'Two search states are identified exactly when both their graph state and language-model state are equal, '
     'equal states always hash alike, and the index that finds a state\'s token returns the token last stored '
     'for exactly that state, surviving growth and clearing, never treating an empty slot as a hit.',
     ['histories', 'inputs'], 'every sequence of insert, find, clear and growth',
     'Tests insert a few thousand integer keys.',
     ['src/hashtable.h', 'src/hashtable.cc', 'src/decoder.h', 'src/decoder.cc'],
     [('hash table', 'HashTable'), ('state', 'Decoder::State, hash()')],
     'value equations and must-facts on every table access, field coverage of equality and hash',
     'Termination of probing is assumed.')
# ------------------------------------------------------------------ memory
prop('M01', 'Every resource is released exactly once',
     'Destroying a recogniser or utterance, or failing to create one, releases everything that was allocated '
     'for it exactly once and with the matching operation, and files opened by the library are closed on every '
     'path while a caller\'s file is left open.',
     ['histories', 'fault_sequences'], 'every life cycle including failed initialisation at any point',
     'Leaks and double releases do not fail the tests.',
     ['src/ce_stt.cc', 'src/util.cc', 'src/vector.cc', 'src/matrix.cc', 'src/srfft.cc', 'src/hashtable.h', 'src/pool.h',
      'src/decoder.cc'],
     [('destroy', 'ce_stt_destroy, ce_utt_destroy and all destructors'), ('files', 'ReadableFile')],
     'ownership analysis: allocation/release pairing per owning field over constructors, assignments and destructors',
     'Ownership of raw-pointer fields is derived from where they are allocated.')
prop('M02', 'Garbage collection frees exactly the unreachable word history',
     'A collection frees a word-history node if and only if no live token can reach it by following previous '
     'links, never frees or visits a node twice, and before a node is freed nothing reachable still refers to it.',
     ['histories'], 'every shape of word-history graph, pool occupancy and collection moment',
     'Collections run every 20 frames on one utterance in the tests.',
     ['src/pool.h', 'src/decoder.cc', 'src/decoder.h'],
     [('collector', 'GCPool::GC'), ('roots', 'Decoder::Process'), ('unlinking', 'OLabel::OnCollect')],
     'loop-coverage and typestate analysis of the collector (full unmark, closure of marking, sweep of unmarked)',
     'Shown for all pool occupancies by symbolic loop bounds.')
prop('M03', 'Tokens are neither leaked nor used after release',
     'Every search token taken from the pool is returned exactly once when it leaves the beam (replaced, '
     'pruned or expanded) and is not touched afterwards, and the pool hands out each slot at most once at a time '
     'and counts its free and used slots exactly.',
     ['histories'], 'every sequence of frames, recombinations and prunings',
     'Token leaks are invisible to the tests.',
     ['src/decoder.cc', 'src/pool.h'],
     [('token life', 'InsertTok, ProcessEmitting'), ('pool', 'Pool::Alloc/Dealloc/Clear')],
     'typestate analysis of token slots over every path',
     'Shown for the token pool and the generic pool operations.')
prop('M04', 'Indexing stays inside vectors and matrices',
     'Each access to an element, row or sub-range of a vector or matrix is checked against the actual bounds '
     'on both sides and addresses exactly the named row and column, so that no access can reach another row\'s '
     'data or memory outside the object.',
     ['inputs'], 'every index, range and shape',
     'Tests use in-range indices.',
     ['src/vector.h', 'src/vector.cc', 'src/matrix.h', 'src/matrix.cc'],
     [('accessors', 'operator(), Row, Range, SubVector, SubMatrix, Resize')],
     'bounds obligations decided by linear arithmetic from dominating assertions, and address equations',
     'The build keeps assertions enabled (checked).')
prop('M05', 'The hypothesis text is always a valid string',
     'From creation to destruction an utterance\'s hypothesis is a valid terminated string: every buffer that '
     'replaces it is large enough for the text and its terminator and is written completely, the previous one is '
     'released only after or when replaced, and an empty result gives the empty string.',
     ['histories', 'inputs'], 'every sequence of partial and final results',
     'Tests read the final hypothesis once.',
     ['src/ce_stt.cc', 'src/strlcpy.cc'],
     [('hypothesis buffer', 'StoreHypText, ce_utt_init, ce_utt_destroy')],
     'buffer-size equations against the copied length and must-write analysis of the terminator',
     'Trusts the bounded copy\'s own obligations, which are also decided.')
# ------------------------------------------------------------------ network
prop('N01', 'Each network layer defines its whole output from its input',
     'Every layer produces an output whose shape follows from its input and parameters, writes every row of '
     'it, leaves its input unmodified, and the layers are applied once each, in file order, each to the '
     'previous one\'s output; a context layer takes exactly the frames at its offsets, clamped to the chunk.',
     ['inputs', 'programs'], 'every input shape and layer sequence',
     'Layer tests use a single small matrix each.',
     ['src/nnet.cc', 'src/nnet.h'], [('layers', 'the Propagate methods'), ('sequence', 'Nnet::Propagate')],
     'shape equations, definite-definition of outputs and loop-coverage per layer',
     'What the elements are is N03; rounding is not decided.')
prop('N02', 'Acoustic scores subtract the prior once and match the frames',
     'Every batch gives exactly one score row per frame, computed from that frame and its full left and right '
     'context, and from every row the logarithm of the state prior is subtracted exactly once.',
     ['inputs', 'histories'], 'every batch size, context size and model',
     'One fixture is tested.',
     ['src/am.cc', 'src/am.h'], [('batch', 'AcousticModel::ComputeBatch, Read')],
     'value equations over the batch input, row count and prior subtraction',
     'Shown for symbolic batch and context sizes.')
prop('N03', 'Layers and vector operations compute their formula for every element',
     'For every element of every vector or matrix, each operation gives exactly the value its definition says: a linear '
     'layer the product with its weights plus the bias, ReLU the positive values and zero for the others, the normalising '
     'layer the row scaled to unit root mean square (a row of zeros stays as it is), batch normalisation the scaled value '
     'plus its offset, softmax the exponential over the row\'s sum of exponentials and log-softmax its logarithm, neither '
     'of them overflowing for large values; dot products, flooring, powers, scaling, adding and copying '
     'treat each element with its own index and leave none out, and resizing clears, keeps or leaves the old '
     'elements as the caller asked.',
     ['inputs'], 'every size and every element value',
     'The tests compare a few small fixed vectors; the formula must hold for every size, stride and magnitude.',
     ['src/vector.cc', 'src/vector.h', 'src/matrix.cc', 'src/matrix.h', 'src/nnet.cc', 'src/nnet.h'],
     [('elementary operations', 'VectorBase, MatrixBase, Vector, Matrix members and VecVec'),
      ('products', 'MatMat and its uses'), ('layers', 'the Propagate methods and the parameters Read keeps')],
     'symbolic value of the element at an arbitrary index (loops as maps and sums over the index) compared with the formula',
     'Over the reals: rounding is not decided, and the BLAS routine is trusted.')

NA = [
    ('X01', 'Acoustic features equal the reference filter-bank definition',
     'For every window of samples the features equal, within rounding, the logarithm of the mel filter-bank '
     'energies of the windowed power spectrum.', ['inputs'], 'every sample window', ['src/fbank.cc', 'src/srfft.cc'],
     'Numerical accuracy of a split-radix transform and floating-point rounding quantify over real-valued data '
     'flows that no static rule in reach bounds; only executing or symbolically evaluating the arithmetic could settle it.'),
    ('X02', 'Scores are valid probabilities',
     'For every input every row of the network output normalised by soft-max sums to one and is finite.',
     ['inputs'], 'every input and model', ['src/vector.cc', 'src/nnet.cc'],
     'Overflow, underflow and row sums depend on run-time magnitudes of weights and activations; no sound static bound exists without the model.'),
    ('X03', 'The reported path is globally optimal',
     'For every graph and score matrix the reported path is the cheapest path of the whole search space.',
     ['inputs'], 'every graph and score matrix', ['src/decoder.cc'],
     'Beam pruning deliberately gives up optimality, and whether a pruned path would have won depends on run-time costs.'),
    ('X04', 'Decoding of every frame terminates',
     'For every graph, following arcs that consume no input terminates on each frame.',
     ['inputs'], 'every graph', ['src/decoder.cc'],
     'Termination depends on the absence of negative-cost cycles in a graph file given at run time.'),
    ('X05', 'Time and memory are bounded',
     'Each frame is decoded in bounded time and memory.', ['inputs', 'histories'], 'every stream', ['src/decoder.cc', 'src/pool.h'],
     'The number of active tokens is a run-time quantity; the over-full beam limit is estimated from a sample and gives no static bound.'),
    ('X06', 'Hash probing always ends at a free or matching slot',
     'For every table content the probing sequence reaches a free or matching slot.', ['histories'], 'every table content',
     ['src/hashtable.h'],
     'Needs number theory about quadratic residues modulo the table size and a run-time load factor, not a property of code shape.'),
    ('X07', 'Concurrent failures keep separate messages',
     'When calls on different utterances fail at the same time each thread sees its own message.', ['schedules'], 'every interleaving',
     ['src/ce_stt.cc'],
     'The interface is documented with one process-wide message, so the code does not promise this; static analysis would only restate that it is absent.'),
]


def main():
    lines, checks, na = [], [], []
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(p['title']) <= 80, p['id']
        lines.append(json.dumps(d))
        if os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')):
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': T + p['tech'], 'level': 'other', 'level_note': STD + p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'no check is built for it yet'})
    for id, title, st, over, text, files, why in NA:
        lines.append(json.dumps({'id': id, 'title': title, 'statement': st,
                                 'quantifier': {'over': over, 'text': text},
                                 'why_tests_cant': 'It quantifies over run-time quantities; tests sample a few.',
                                 'anchors': {'files': files, 'mechanism': [{'name': 'implementation', 'where': files[0]}]}}))
        na.append({'property': id, 'reason': why})
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 engine/program.py', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks analyse /repo/src (and /repo/tool) as they are at run time; nothing of the repository is executed.'}
    open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')


main()
