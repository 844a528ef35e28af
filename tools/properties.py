SCHED = 'seeded interleavings of caller threads, recorded and replayable'

# -- index --------------------------------------------------------------------

P.append(prop(
    'C01', 'Concurrent searches and appends on a Hamming index are linearizable',
    'When any number of threads append to and search one Hamming database, '
    'every search (single- or multi-threaded, for any number of results, also '
    'more than there are entries) returns exactly min(n, size) distinct stored '
    'payloads, and they are the nearest to the query among the entries present '
    'at one instant between the search\'s start and end, in non-decreasing '
    'distance when sorting is requested. No acknowledged append is lost, '
    'duplicated or mixed up with another entry in any later search, and no '
    'operation fails or hangs because of another one.',
    ['schedules', 'histories', 'inputs'],
    'every interleaving of any number of appending and searching threads, '
    'every code size, database size and requested count',
    'Tests append from one thread, then search from one thread, with fewer '
    'results than entries; the shared buffers, the in-memory mirror of the '
    'database and the thread pool only go wrong under interleavings.',
    ['zounds/index/hammingdb.py', 'zounds/nputil/npx.py',
     'zounds/nputil/countbits.pyx'],
    [('append: LMDB transaction plus in-memory mirror', 'zounds/index/hammingdb.py'),
     ('catching up with external modifications before each search',
      'zounds/index/hammingdb.py'),
     ('chunked multi-threaded scoring', 'zounds/index/hammingdb.py')],
    [('in-memory codes', 'mirror of every code in the database',
      'zounds/index/hammingdb.py')],
    ['HammingDb.append', 'HammingDb.search', 'HammingDb.random_search']))
C['C01'] = (
    SCHED + '; history checked for linearizability against a set model',
    'Seeded search over thread interleavings at line, bytecode and storage-'
    'call granularity over the real database; assumes numpy and LMDB calls '
    'are atomic.')

P.append(prop(
    'C02', 'Acknowledged Hamming database writes survive process crashes',
    'After the process dies at any instant and the database is opened again, '
    'every append and metadata write that had returned is present exactly once '
    'with its exact code and payload, and one that had not returned is either '
    'wholly present or wholly absent. The code size fixed at creation survives '
    'every crash and restart: it is restored when none is given, and opening '
    'with a different one is refused without altering the stored data.',
    ['crash_points', 'histories'],
    'every sequence of writes, searches, crashes and restarts, every crash '
    'point between or inside storage operations',
    'Tests never kill a process in the middle of an append and never reopen '
    'after a crash.',
    ['zounds/index/hammingdb.py'],
    [('one LMDB transaction per append', 'zounds/index/hammingdb.py'),
     ('code size kept in the metadata database', 'zounds/index/hammingdb.py')],
    [], ['HammingDb after reopening']))
C['C02'] = (
    'crashes injected at storage operations and code lines, in simulated and '
    'in real killed processes, checked against a model of acknowledged writes',
    'Process crashes only (the page cache survives): power loss is outside '
    'the guarantee the database configuration gives.')

P.append(prop(
    'C03', 'Every handle on a Hamming database sees what others acknowledged',
    'With any number of handles open on one database, in one or several '
    'processes, a search begun on one handle after an append through another '
    'was acknowledged takes that entry into account, and the handles never '
    'disagree about the entries, their codes, or the code size. '
    'A write-only handle stores entries that every other handle can find, and '
    'refuses to search.',
    ['schedules', 'histories'],
    'every interleaving of appends and searches through any number of handles '
    'that are opened and closed at any time',
    'One test appends through a second handle once; races between catching up '
    'and appending, and concurrent creation, are never exercised.',
    ['zounds/index/hammingdb.py'],
    [('comparing sizes before searching, then catching up',
      'zounds/index/hammingdb.py')],
    [], ['HammingDb.search on several handles', 'HammingDb.__len__']))
C['C03'] = (
    'several simulated processes on one database, ' + SCHED,
    'Seeded search; the handles share one real LMDB environment, writer lock '
    'and scheduling are simulated.')

P.append(prop(
    'C04', 'A failed Hamming database write has no effect',
    'When an append or metadata write fails, whether because the disk is full, '
    'the commit failed, or the arguments are not acceptable, the caller gets '
    'an exception and the database is exactly as before: no later search, '
    'length or metadata read, on this handle or after reopening, reflects the '
    'failed write, and later operations succeed once the fault is gone.',
    ['fault_sequences', 'histories'],
    'every sequence of operations with storage failures at any call',
    'No test makes a storage call fail.',
    ['zounds/index/hammingdb.py'],
    [('transaction scope of append', 'zounds/index/hammingdb.py'),
     ('validation before writing', 'zounds/index/hammingdb.py')],
    [], ['HammingDb.append', 'HammingDb.search']))
C['C04'] = (
    'storage faults injected at every kind of LMDB call, checked against a '
    'set model',
    'Faults are injected at the LMDB call boundary; LMDB itself is real.')

P.append(prop(
    'C05', 'A listening index indexes each document exactly once',
    'An index that listens to the feature store\'s event log ends up, once '
    'faults stop and it is running, with every code of every document whose '
    'indexed feature was computed, each exactly once, whatever the '
    'interleaving of producers, listener and searches and whatever the '
    'sequence of crashes and restarts of the indexing process, also when the '
    'clock that stamps events jumps or producers publish events in another '
    'order than they log them. Events about '
    'other features or other versions are ignored, an empty event log is not '
    'an error, and adding documents by hand does not make the listener repeat '
    'or skip any.',
    ['schedules', 'crash_points', 'histories'],
    'every interleaving of document processing with listening, every crash '
    'point of the indexing process, every number of restarts',
    'The tests drain a log once, from an index that has never run before, and '
    'never restart it or let an event arrive live.',
    ['zounds/index/index.py', 'zounds/index/hammingdb.py'],
    [('replay of the log, then live events', 'zounds/index/index.py'),
     ('processed events kept in the index', 'zounds/index/index.py')],
    [('timestamp', 'the event a document was indexed for',
      'zounds/index/index.py')],
    ['HammingIndex.search', 'HammingIndex.__len__']))
C['C05'] = (
    'simulated indexing process crashed and restarted at storage operations '
    'and code lines, real event log, ' + SCHED,
    'Seeded search. The event log of the dependency is real; its clock jumps '
    'and it publishes events in another order than it logs them.')

P.append(prop(
    'C06', 'Index results identify the audio that produced the matching code',
    'Every result of an index search names a document that was indexed, the '
    'time slice of it whose stored code has the reported distance, and the '
    'extra data computed for exactly that document and time slice, and '
    'results are the nearest codes of all indexed documents; this holds for '
    'results consumed lazily, while documents are being added by other '
    'threads, and after the index is closed and reopened.',
    ['schedules', 'histories', 'inputs'],
    'every corpus, feature layout, query and interleaving of adding and '
    'searching',
    'Tests index a handful of documents sequentially and check counts.',
    ['zounds/index/index.py', 'zounds/index/hammingdb.py',
     'zounds/persistence/timeslice.py', 'zounds/timeseries/constantrate.py'],
    [('encoding of id, time slice and extra data with each code',
      'zounds/index/index.py')],
    [], ['HammingIndex.search', 'HammingIndex.random_search']))
C['C06'] = (
    SCHED + '; brute-force model over every document\'s slices',
    'Seeded search over interleavings, corpora and restarts.')

# -- audio streams ------------------------------------------------------------

P.append(prop(
    'C07', 'Decoding an audio stream does not depend on how its bytes arrive',
    'Decoding an encoded audio file (wav, flac, ogg; any supported bit depth, '
    'sample rate and channel count) delivered as a stream of byte chunks '
    'yields the same samples, in order, exactly once, as decoding the whole '
    'file at once, however the bytes are cut into chunks and whatever chunk '
    'of samples is read at a time, with the file\'s sample rate and mono '
    'conversion as configured.',
    ['schedules', 'inputs'],
    'every division of the byte stream into chunks, every read size, every '
    'supported format',
    'Tests decode one file with one chunk size.',
    ['zounds/soundfile/audiostream.py', 'zounds/soundfile/chunksize.py'],
    [('memory buffer between the byte stream and libsndfile',
      'zounds/soundfile/audiostream.py')],
    [], ['AudioStream']))
C['C07'] = (
    'seeded delivery schedules of the byte stream (chunk sizes, tiny first '
    'chunks, end of stream), against whole-file decoding',
    'libsndfile is trusted for whole-file decoding.')

P.append(prop(
    'C08', 'Stored audio decodes to the same samples at any point, in any order',
    'Audio compressed for storage chunk by chunk decodes to the same samples '
    'as the source compressed at once, whatever the chunk boundaries; reading '
    'any time slice of the stored audio gives the samples at exactly those '
    'times, independent of what was read before from the same handle and of '
    'other threads reading from it, and iterating over chunks covers every '
    'sample once.',
    ['schedules', 'histories', 'inputs'],
    'every chunking of the source, every sequence and interleaving of slice '
    'reads and iterations',
    'Tests read a few slices from fresh handles, one at a time.',
    ['zounds/soundfile/ogg_vorbis.py', 'zounds/soundfile/chunksize.py'],
    [('seek and read on one shared decoder', 'zounds/soundfile/ogg_vorbis.py')],
    [], ['OggVorbisWrapper', 'OggVorbis']))
C['C08'] = (SCHED + '; random-access history against whole-file decoding',
            'libsndfile is trusted for whole-file decoding.')

P.append(prop(
    'C09', 'Streaming resampling is independent of chunk boundaries',
    'Resampling audio delivered in chunks yields the same samples, up to '
    'the accuracy of the converter, as resampling it in one piece: no sample '
    'is dropped, repeated or displaced at chunk boundaries, the total length '
    'matches the ratio of the rates, and one stream\'s state never leaks into '
    'the next.',
    ['schedules', 'inputs'],
    'every division of the signal into chunks, every pair of sample rates, '
    'every sequence of signals through one process',
    'Tests resample with one chunk size and check lengths.',
    ['zounds/soundfile/resample.py'],
    [('stateful converter fed chunk by chunk', 'zounds/soundfile/resample.py')],
    [], ['Resampler']))
C['C09'] = ('seeded delivery schedules against one-piece conversion',
            'libsamplerate is trusted for one-piece conversion.')

P.append(prop(
    'C10', 'Streaming windowing is independent of chunk boundaries',
    'Splitting a signal that arrives in chunks into (possibly overlapping, '
    'gapped, or longer-than-chunk) windows yields, for every division into '
    'chunks, the same windows at the same times: every full window of the '
    'signal exactly once and in order, with only the final partial window '
    'padded.',
    ['schedules', 'inputs'],
    'every division of the signal into chunks, every window size and step',
    'Tests use a single chunk or a few fixed chunk sizes.',
    ['zounds/spectral/sliding_window.py', 'zounds/nputil/npx.py'],
    [('buffering of the unconsumed tail between chunks',
      'zounds/spectral/sliding_window.py')],
    [], ['SlidingWindow']))
C['C10'] = ('seeded delivery schedules against a reference windowing',
    'Seeded search over divisions and deliveries, compared bit by bit with a reference windowing.')

P.append(prop(
    'C11', 'Feature computation does not depend on chunking or arrival order',
    'The features a document graph computes from a recording (spectra, '
    'onset detection functions, pooled, merged, sliced and peak features) are '
    'the same, with the same time base, whatever chunk sizes the stages use, '
    'and whichever of two merged inputs delivers first; detected segments '
    'tile the whole recording without gap or overlap.',
    ['schedules', 'inputs'],
    'every chunk size at every stage, every recording length',
    'Tests compute graphs with one default chunk size.',
    ['zounds/segment/onset.py', 'zounds/basic/basic.py',
     'zounds/spectral/spectral.py'],
    [('state carried between chunks by each stage', 'zounds/segment/onset.py')],
    [], ['computed features of a document']))
C['C11'] = ('seeded delivery schedules against one-piece computation',
    'Seeded search; features without a formula written down in the check are compared with their one-piece computation, so an error that is the same for every division is not seen there.')

P.append(prop(
    'C12', 'Stored features decode to what was computed',
    'A feature that is computed in chunks, stored, and read back, in the same '
    'or another process and however storage splits its bytes, has the same '
    'values, type, shape and dimensions (time and frequency bases included) '
    'as the one computed in memory, and slices of the stored one equal slices '
    'of the computed one.',
    ['schedules', 'inputs', 'fault_sequences'],
    'every chunking of the feature, every split of the stored bytes into reads',
    'Tests store a few features in memory and read them in full.',
    ['zounds/persistence/arraywithunits.py',
     'zounds/persistence/dimension.py',
     'zounds/persistence/frequencydimension.py',
     'zounds/persistence/timeslice.py'],
    [('packed header with dimensions, then raw samples',
      'zounds/persistence/arraywithunits.py')],
    [], ['decoded features']))
C['C12'] = ('seeded chunk and read schedules against the in-memory feature',
    'Seeded search over element types, dimensions, divisions and reads; event times below 2.5 hours.')

P.append(prop(
    'C13', 'A document that failed to process is retried cleanly',
    'When computing a document fails at any point, because its audio stream '
    'breaks off, a download errors or storage fails, the error is reported, '
    'no truncated feature is ever readable as if complete, and processing it '
    'again after the fault is gone gives the same features as if it had never '
    'failed. Other documents are unaffected.',
    ['fault_sequences', 'crash_points'],
    'every fault point in the stream, the network and the store, every retry',
    'Tests process healthy documents only.',
    ['zounds/soundfile/audio_metadata.py', 'zounds/basic/audiograph.py',
     'zounds/soundfile/audiostream.py', 'zounds/soundfile/ogg_vorbis.py'],
    [('features are written when their stream ends', 'zounds/basic/audiograph.py')],
    [], ['document.process, then reading features']))
C['C13'] = ('faults injected in the byte stream, the network and the store',
    'Faults at opening and writing of stored features, in the source, the network and computations; not at closing streams, where the dependency swallows errors.')

# -- datasets -----------------------------------------------------------------

P.append(prop(
    'C14', 'Ingest processes every item once and isolates failures',
    'Ingesting a dataset, sequentially or with any number of threads or '
    'processes, attempts every item of it exactly once, skips exactly the '
    'items that already exist when asked to, and returns only when all '
    'attempts have ended; an item that fails does not prevent or disturb any '
    'other, and a failure of the dataset itself reaches the caller.',
    ['schedules', 'fault_sequences'],
    'every interleaving of workers, every subset of failing items',
    'There is no test of ingest.',
    ['zounds/datasets/ingest.py'],
    [('pool of workers joined before returning', 'zounds/datasets/ingest.py')],
    [], ['ingest']))
C['C14'] = ('simulated worker pools with failing items, ' + SCHED,
    'Worker processes share the memory of the simulator and get pickled copies of their items.')

P.append(prop(
    'C15', 'Interrupted downloads are never served from the cache',
    'Whatever happens while a remote file is being fetched into a local cache '
    '(broken connection, short body, error status, failing or full disk, a '
    'crash of the process or a power failure, a concurrent fetch of the same file), a file the cache hands out '
    'is byte for byte the complete remote file, a failed fetch is reported '
    'and retried on the next use, and a complete file is fetched only once.',
    ['fault_sequences', 'crash_points', 'schedules'],
    'every fault and crash point of a download, every sequence of retries',
    'There is no test of the caches.',
    ['zounds/datasets/cache.py', 'zounds/datasets/util.py'],
    [('existence of the local file', 'zounds/datasets/cache.py')],
    [], ['DataSetCache', 'ensure_local_file']))
C['C15'] = ('simulated network and disk with faults and crashes',
    'Files on disk are real; what is buffered in a crashed process is lost, and what was not synced may be lost when the power fails.')

P.append(prop(
    'C16', 'Remote collections are enumerated completely, once and in order',
    'Iterating over a remote sound collection yields each of its matching '
    'sounds exactly once, in the service\'s order and up to the requested '
    'number, with the metadata the service gave, whatever the page sizes; a '
    'failing request surfaces as an error and never as a silently shortened, '
    'repeated or endless enumeration, and FreeSound is never asked faster '
    'than the configured delay.',
    ['fault_sequences', 'inputs'],
    'every page layout and every network fault',
    'There are no tests of the remote datasets.',
    ['zounds/datasets/freesound.py', 'zounds/datasets/internetarchive.py',
     'zounds/datasets/phatdrumloops.py', 'zounds/datasets/musicnet.py',
     'zounds/datasets/nsynth.py'],
    [('following page links', 'zounds/datasets/freesound.py')],
    [], ['FreeSoundSearch', 'InternetArchive', 'PhatDrumLoops']))
C['C16'] = ('simulated web services with faults',
    'The services are simulated from the code and its documentation, with requests and urllib3 real above the connection.')

# -- learning -----------------------------------------------------------------

P.append(prop(
    'C17', 'Sampled training examples are real and aligned across features',
    'Reservoirs filled from a stream of feature batches, from any number of '
    'threads, only ever hand out examples that were added, with the examples '
    'of all features in a batch coming from the same source position, and '
    'never more than they hold; asking before enough has arrived is an error.',
    ['schedules', 'inputs'],
    'every sequence and interleaving of adding and sampling',
    'Tests add from one thread and check shapes.',
    ['zounds/learn/random_samples.py'],
    [('shared index for all features of a multiplexed reservoir',
      'zounds/learn/random_samples.py')],
    [], ['ReservoirSampler', 'InfiniteSampler', 'ShuffledSamples']))
C['C17'] = (SCHED + '; every handed-out row is attributed to its source',
    'That samples are drawn uniformly is not claimed; whole reservoirs are taken when nothing is added.')

P.append(prop(
    'C18', 'Observers never disturb training',
    'Whatever observers (callbacks, web monitor clients) join, leave, fail to '
    'keep up or disconnect, at any moment of a training run, training goes on '
    'to its end with the same result as unobserved; each registered observer '
    'is told about each batch once, in order, from joining to leaving.',
    ['schedules', 'fault_sequences'],
    'every interleaving of training with observers joining, leaving and '
    'disconnecting',
    'Tests train without observers.',
    ['zounds/learn/trainer.py', 'zounds/ui/training_monitor.py'],
    [('registered callbacks called after each batch', 'zounds/learn/trainer.py')],
    [], ['Trainer', 'TrainingMonitorApp']))
C['C18'] = (SCHED + ' with simulated web socket clients',
    'Seeded search at line granularity in trainers and web code; one batch of tolerance at joining and leaving.')

P.append(prop(
    'C19', 'Training runs the requested epochs and never loses the network',
    'Training, in one go or resumed from checkpoint to checkpoint, runs '
    'exactly the configured number of epochs and batches, reports train and '
    'test errors of the right data, and is never influenced by held-out '
    'data. A batch that trips a device assertion is skipped with a warning, '
    'and other failures surface as themselves; running out of memory when '
    'the trained network is applied never loses the network, and training '
    'again after a failure or interruption carries on with the network '
    'trained so far.',
    ['fault_sequences', 'schedules'],
    'every interruption or allocation failure point',
    'Tests train for an epoch without faults.',
    ['zounds/learn/supervised.py', 'zounds/learn/pytorch_model.py',
     'zounds/learn/trainer.py'],
    [('the training loop', 'zounds/learn/supervised.py')],
    [], ['SupervisedTrainer', 'PyTorchNetwork']))
C['C19'] = ('allocation failures and interruptions injected in training',
    'Failures are raised where torch would raise them (forward, loss, backward, application); networks with dropout are not compared with the reference.')

P.append(prop(
    'C20', 'A saved learned model transforms like the one that was trained',
    'A learned pipeline that is stored and loaded in a fresh process gives, '
    'for every input, the transform and the inverse transform the original '
    'gives, independent of what either transformed before and of threads '
    'using it at the same time. Loading it never changes what is stored; its '
    'version stays the same wherever it is loaded, and differs between '
    'pipelines that were trained differently. A pipeline whose storing '
    'failed is never loaded as if it were whole.',
    ['histories', 'schedules', 'crash_points'],
    'every pipeline, history of transforms, and restart',
    'Tests load a model once in the same process.',
    ['zounds/learn/learn.py', 'zounds/learn/preprocess.py',
     'zounds/learn/pytorch_model.py'],
    [('pickling of pipelines', 'zounds/learn/learn.py')],
    [], ['Learned', 'PreprocessingPipeline']))
C['C20'] = ('process restarts and interleaved transforms',
    'The other process is really another one; scikit-learn is stood in for.')

# -- web ----------------------------------------------------------------------

P.append(prop(
    'C21', 'Web responses are right under any interleaving of requests',
    'Every byte-range, feature, time-slice and search request to the web '
    'interface gets exactly the requested part of the right feature with '
    'headers that describe it (byte ranges as in HTTP, both positions '
    'inclusive, and time ranges in seconds), or an error status, independent '
    'of other requests in flight, of their order and of clients that '
    'disconnect; a statement sent to the console is executed exactly once '
    'and answered with its own output; a failing request never stops the '
    'server from answering the next, and a server can be stopped at any time '
    'after its start.',
    ['schedules', 'histories', 'fault_sequences', 'inputs'],
    'every sequence and interleaving of requests, every range',
    'Tests send a few well-formed ranges.',
    ['zounds/ui/contentrange.py', 'zounds/ui/baseapp.py', 'zounds/ui/api.py',
     'zounds/ui/featureparser.py', 'zounds/ui/serializer.py',
     'zounds/ui/search.py'],
    [('range parsing and slicing', 'zounds/ui/contentrange.py')],
    [], ['HTTP responses']))
C['C21'] = ('simulated clients against the real request handlers',
    'Figures are compared as what is drawn, not as pixels; malformed ranges may be ignored or refused.')

P.append(prop(
    'C22', 'Nothing is served without the secret when one is set',
    'When the web interface is given a secret, no request, on any route and '
    'at any time, gets data or runs code unless its client presented that '
    'secret exactly, and tampering with what a client was given never gets '
    'it in; after presenting the secret the client stays signed in for at '
    'least 30 and at most 31 days by the server\'s clock, whatever that '
    'clock does, and other clients are unaffected.',
    ['histories', 'schedules', 'configurations'],
    'every sequence of requests from any number of clients, every clock jump',
    'Tests do not exercise the secret.',
    ['zounds/ui/baseapp.py'],
    [('secure cookie set on sign-in', 'zounds/ui/baseapp.py')],
    [], ['HTTP responses']))
C['C22'] = ('simulated clients and clock against the real handlers',
    'Cookies given by an earlier run of the same server may or may not be accepted; open websockets outlive the cookie.')

P.append(prop(
    'C23', 'Continuous training always has its latest whole checkpoint',
    'A model that trains continuously over streamed samples of its documents '
    'stores each finished pass before the next one begins. Whoever loads the '
    'pipeline or its network, at any time and from any process, gets one '
    'whole pass, the latest that was stored: its statistics, its weights, '
    'ready to be applied. Crashes, failing documents, failing training and '
    'failing storage never lose or damage it, training resumed from it '
    'continues with its weights, and before the first pass is stored loading '
    'it reports that there is none.',
    ['crash_points', 'schedules', 'histories'],
    'every sequence of training lifetimes, every point at which one ends, '
    'every interleaving with those who load checkpoints',
    'No test runs this pipeline at all: it never ends by itself.',
    ['zounds/learn/graph.py', 'zounds/learn/preprocess.py',
     'zounds/learn/pytorch_model.py', 'zounds/learn/random_samples.py'],
    [('pipeline stored anew after every pass', 'zounds/learn/graph.py'),
     ('network found in the stored pipeline', 'zounds/learn/graph.py')],
    [], ['load_network and pipeline of the trained model']))
C['C23'] = ('training lifetimes that end or are killed at any point, with '
    'concurrent readers of checkpoints, against recorded weights and '
    'statistics of every pass',
    'Assumes a database whose writes become visible atomically, as LMDB\'s do; the plain files of FileSystemDatabase (featureflow) do not.')

P.append(prop(
    'C24', 'What a document holds depends on its sound alone',
    'With any of the graphs the library ships (resampled, windowed, '
    'short-time Fourier, frequency adaptive, the full audio graph, onsets), '
    'a document processed from a sound has the same features, with the same '
    'shapes, dimensions and values, whatever it was read from (bytes, a '
    'file, a stream, a URL, a request, a zip archive), however its bytes '
    'arrived, in whatever chunks it was processed, whatever else was being '
    'processed, and whether a feature was stored or is computed when it is '
    'read; reading never changes the store or fetches the sound again.',
    ['inputs', 'schedules', 'configurations'],
    'every sound, source, delivery and chunk size, every combination of '
    'stored features, every interleaving of documents and readers',
    'Tests process one small file in one chunk, one at a time.',
    ['zounds/basic/audiograph.py', 'zounds/soundfile/audio_metadata.py',
     'zounds/soundfile/audiostream.py', 'zounds/soundfile/resample.py',
     'zounds/spectral/sliding_window.py'],
    [('graphs of streaming stages', 'zounds/basic/audiograph.py'),
     ('sources of audio', 'zounds/soundfile/audio_metadata.py')],
    [], ['features of processed documents']))
C['C24'] = ('the shipped graphs over simulated sources, deliveries, chunk '
    'sizes and schedules, against the same sound processed alone and in one '
    'piece',
    'The reference is the library itself processing the sound in one piece; C07-C11 check the stages against independent ones. Lossy ogg copies are compared within 30% of their energy.')

# -- not simulation targets ---------------------------------------------------

P.append(prop(
    'C25', 'Adversarial and triplet training make the updates they should',
    'For every batch, the Wasserstein GAN trainer updates the critic alone, '
    'as often as configured, each time with a batch of the training data, a '
    'batch generated from fresh standard normal noise, and a penalty on the '
    'critic\'s gradient with respect to each single example (of any shape) '
    'at random points between the two, and then the generator alone. For '
    'every batch, the triplet trainer makes one update for anchors, '
    'deformed anchors and other examples. Each update is the step of Adam '
    'down the gradient of exactly that loss, whatever failed or was '
    'interrupted before and from checkpoint to checkpoint; what is reported '
    'for a batch is what was computed for it, every example is drawn '
    'eventually, and the training data are never changed.',
    ['fault_sequences', 'inputs'],
    'every pair of networks, data, arguments, and sequence of failures',
    'Tests train for a batch and look at nothing but the absence of errors.',
    ['zounds/learn/wgan.py', 'zounds/learn/embedding.py',
     'zounds/learn/loss.py'],
    [('freezing and updating in turn', 'zounds/learn/wgan.py'),
     ('choosing triplets', 'zounds/learn/embedding.py')],
    [('optimizers', 'moments of all updates so far', 'zounds/learn/wgan.py')],
    ['WassersteinGanTrainer', 'TripletEmbeddingTrainer']))
C['C25'] = ('failures injected in passes and callbacks; every update checked against a reference at double precision',
    'Networks without batch statistics or dropout; each update is compared with a reference that starts from the same weights.')

P.append(prop(
    'C26', 'The shipped settings keep every document where they say',
    'A model decorated with the settings the library ships can store its '
    'documents: with those for LMDB (any allowed path, size given as any '
    'number, identifiers given by the user or made up) every document that '
    'was processed is listed, exists and reads back with the values of its '
    'last writing, by all threads and processes, until it is replaced, '
    'through crashes, restarts and storage errors, for the identifiers the '
    'user gave (URLs, names with colons, any text without the delimiter |) or '
    'for a fresh one each; the store holds as much as was asked for, and '
    'nothing appears in it that was not stored in it. With those for object '
    'storage, documents are stored in the container, region and account '
    'given, and read back from there by everyone. With those for memory, '
    'the same holds within a process, and decorated models, as well as '
    'processes, share nothing. The decorated model keeps its name and module.',
    ['schedules', 'crash_points', 'fault_sequences', 'inputs',
     'configurations'],
    'every sequence of processing, reading, listing and lookups by any '
    'number of threads and processes on any number of stores, every '
    'identifier, size, storage error and crash point',
    'Tests decorate a model or two for storage in memory.',
    ['zounds/util/persistence.py', 'zounds/persistence/arraywithunits.py'],
    [('settings for persistence', 'zounds/util/persistence.py')],
    [('stores', 'what was processed is found', 'zounds/util/persistence.py')],
    ['simple_lmdb_settings', 'simple_in_memory_settings',
     'simple_object_storage_settings']))
C['C26'] = ('simulated processes, storage faults and crashes over the shipped settings; reads, listings and lookups checked against the history of writings',
    'A crash of a process keeps the page cache. Stores of objects cannot be listed, and failed uploads pass unnoticed, in the pinned featureflow: neither is checked.')

P.append(prop(
    'N01', 'Array slicing by time and frequency agrees with integer slicing',
    'Slicing a feature by time, frequency band or any mix of these and '
    'integers gives the same values as the corresponding integer slice, with '
    'dimensions that describe exactly the selected part.',
    ['inputs'], 'every array, dimension and slice',
    'Tests try particular slices.',
    ['zounds/core/axis.py', 'zounds/core/dimensions.py',
     'zounds/timeseries/timeseries.py'],
    [('dimension-specific indexing', 'zounds/core/axis.py')]))
NA['N01'] = ('A pure function of array and slice: no schedule, clock, fault '
             'or stream takes part, so there is nothing to simulate.')

P.append(prop(
    'N02', 'Invertible transforms reconstruct their input',
    'The transforms offered as invertible (MDCT, DCT, FFT-based synthesis, '
    'wavelet packets, mu-law, log and instance scaling) reconstruct every '
    'input within numeric accuracy.',
    ['inputs'], 'every signal', 'Tests try particular signals.',
    ['zounds/spectral/spectral.py', 'zounds/synthesize/synthesize.py',
     'zounds/loudness/loudness.py', 'zounds/learn/preprocess.py'],
    [('forward and backward transforms', 'zounds/spectral/spectral.py')]))
NA['N02'] = ('Numeric identities of pure functions; simulation adds nothing '
             'to generating inputs.')

P.append(prop(
    'N03', 'Frequency scales map frequencies to bins consistently',
    'For every frequency scale, bands are ordered, cover the scale\'s range, '
    'and converting between bands, slices and frequencies is consistent.',
    ['inputs'], 'every scale and band', 'Tests try particular scales.',
    ['zounds/spectral/frequencyscale.py'],
    [('band arithmetic', 'zounds/spectral/frequencyscale.py')]))
NA['N03'] = 'Pure arithmetic without schedule, clock, fault or stream.'

P.append(prop(
    'N04', 'Sample rate and duration arithmetic is consistent',
    'Converting between durations, sample rates, overlaps and sample counts '
    'is exact to the sample.',
    ['inputs'], 'every rate and duration', 'Tests try particular values.',
    ['zounds/timeseries/samplerate.py', 'zounds/timeseries/duration.py'],
    [('rate arithmetic', 'zounds/timeseries/samplerate.py')]))
NA['N04'] = 'Pure arithmetic without schedule, clock, fault or stream.'
