"""Writes properties.jsonl (kept as a script so that the statements can be reviewed in one place)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


TESTS = 'The tests only exercise block iteration and point counts of a few small curves; '
p('C01', 'Shared state of workers and pools is free of data races',
  'Whatever the worker threads and the controlling thread of a process both use (the queue and the configuration of a worker, the bookkeeping of a thread pool, the results and the block list shared by all workers) is only ever accessed in an order that the program itself enforces: by a common lock, or because the access precedes the start of the thread or follows its end. This holds for every interleaving of the threads.',
  ['schedules'], 'every interleaving of the controlling thread with any number of worker threads',
  TESTS + 'no test starts a worker thread, and a race shows only under particular schedules.',
  ['src/threaded/thread.cc', 'src/threaded/thread.hh', 'src/threaded/thread_pool.cc', 'src/threaded/thread_pool.hh', 'src/store/store.cc', 'src/store/store.hh'],
  [('data_mutex of Thread and of ThreadPool', 'src/threaded/thread.cc, src/threaded/thread_pool.cc'), ('static_mutex of Store', 'src/store/store.cc')])
p('C02', 'A waiting worker never misses work or the request to stop',
  'A worker thread that has nothing to do sleeps, and it is certain to be woken after a block was handed to it or after it was asked to stop, no matter how these events fall relative to its going to sleep. When it wakes up it takes a block only if there is one, and it ends if it was asked to stop.',
  ['schedules'], 'every interleaving of a worker with the thread that assigns blocks and stops it',
  TESTS + 'a lost wake-up needs a schedule in which the notification falls into a window of a few instructions.',
  ['src/threaded/thread.cc', 'src/threaded/thread.hh'],
  [('condition variable with predicate re-check under data_mutex', 'src/threaded/thread.cc: main_thread, assign, shutdown')])
p('C03', 'Locks never deadlock the process',
  'The locks of the program are acquired in one global order, none is acquired again by the thread that holds it, and each is released on every path that leaves the code that took it. No thread waits for the end of another thread, for a message or for a timer while it holds a lock that worker threads use.',
  ['schedules'], 'every interleaving, every path (error paths included)',
  TESTS + 'no test runs threaded code, and a deadlock needs a particular schedule or error path.',
  ['src/threaded/thread.cc', 'src/threaded/thread_pool.cc', 'src/store/store.cc', 'src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc'],
  [('scoped locks, short critical sections', 'src/threaded, src/store')])
p('C04', 'Results and the list of their blocks are published and exported together',
  'When a worker is done with a block, all the results it accumulated for it and the name of the block become visible to an export in one indivisible step; an export takes results and block list in one indivisible step, and leaves both empty. Hence an exported block list names exactly the blocks whose results are in the exported results, and nothing is exported twice.',
  ['schedules', 'histories'], 'every interleaving of publications and exports, every history of exports',
  TESTS + 'the store is not tested at all, and splitting the step is only visible if an export falls between the halves.',
  ['src/store/store.cc', 'src/store/store.hh'],
  [('critical section of flush_to_static_store / flush_static_store', 'src/store/store.cc')])
p('C05', 'A block is reported finished once, after its results are published',
  'For each block that a worker takes from its queue it publishes results exactly once and after that reports exactly this block as finished exactly once; it does not take another block in between. A pool passes each finished report on exactly once, to whoever asks for finished blocks first.',
  ['schedules', 'histories'], 'every path of the worker, every history of reports and queries',
  TESTS + 'workers and pools are not tested.',
  ['src/threaded/thread.cc', 'src/threaded/thread_pool.cc', 'src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc'],
  [('order of flush_to_static_store and finished_block', 'src/threaded/thread.cc'), ('flush_finished_blocks', 'src/threaded/thread_pool.cc')])
p('C06', 'Exactly the squarefree polynomials of a block enter its results, fully counted',
  'For every position of a block the worker considers the polynomial at that position of the block; if it is squarefree it is entered into the results of that block exactly once, after its points have been counted over every extension the worker was configured for, and if it is not squarefree it contributes nothing.',
  ['inputs', 'histories'], 'every block and every configuration',
  TESTS + 'the loop of the worker is not tested, only counting for hand-picked curves.',
  ['src/threaded/thread.cc', 'src/store/store.cc'],
  [('loop over BlockIterator', 'src/threaded/thread.cc: main_thread')])
p('C07', 'A worker is idle, busy or ready, never two of these at once',
  'A pool hands a block only to a worker that it removes from its idle workers in the same step; the worker that reports a block finished becomes ready, and ready workers become idle again exactly once when the free slots are counted. The number of free slots that a pool announces equals the number of workers that became idle by this announcement.',
  ['schedules', 'histories'], 'every history of assignments and finished reports',
  TESTS + 'thread pools are not tested.',
  ['src/threaded/thread_pool.cc'],
  [('idle_threads, ready_threads, busy_threads', 'src/threaded/thread_pool.cc')])
p('C08', 'An offered block is skipped if recorded, else handed to exactly one worker process',
  'A block offered to a worker pool that the result directory records when the pool is configured is never computed again. Any other offered block is handed to exactly one process, one that announced a free slot, which then has one free slot less, and it is remembered as outstanding for that process until it reports the block as finished.',
  ['histories', 'schedules'], 'every sequence of offered blocks, result directories and reports',
  TESTS + 'worker pools are not tested, and need MPI processes or result directories.',
  ['src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc', 'src/store/file_store.cc'],
  [('assign, fill_idle_queues, finished_block', 'src/worker_pool/standalone.cc, src/worker_pool/mpi.cc')])
p('C09', 'Outstanding blocks are awaited and saved before configuration changes and stop',
  'Before a worker pool switches to another configuration, and before it stops, it waits until no block is outstanding for any process, and then saves what has been computed under the present configuration. Only after that are workers reconfigured or stopped, and on stopping every worker of every process is stopped.',
  ['schedules', 'histories'], 'every sequence of configurations and every timing of workers',
  TESTS + 'worker pools are not tested; skipping a wait shows only if a worker is slow.',
  ['src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc', 'src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/executables/threaded.cc'],
  [('wait_for_assigned_blocks, save_global_stores_to_file, update_config, destructor', 'src/worker_pool')])
p('C10', 'Every exported result is written to the result directory',
  'Every pair of results and block list that is exported from the stores, in this process or received from another one, is handed to the result directory of the configuration under which it was computed, unless that configuration has no result directory. None is dropped, and none is written under another configuration.',
  ['histories', 'schedules'], 'every sequence of saves, configurations and messages',
  TESTS + 'saving is not tested.',
  ['src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc', 'src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/threaded/thread_pool.cc', 'src/store/file_store.cc'],
  [('save_global_stores_to_file', 'src/worker_pool')])
p('C11', 'A record of blocks exists only next to complete results',
  'In a result directory, and in the output of the merger, a record file with its final name appears only after the file with the results it stands for has been written completely and this was verified; in a result directory it appears as a whole. If writing either fails the program does not carry on as if it had succeeded.',
  ['crash_points', 'fault_sequences'], 'every point at which the process may be killed, every write that may fail',
  TESTS + 'no test writes result files, much less interrupts writing or fills the disk.',
  ['src/store/file_store.cc', 'src/executables/merger.cc'],
  [('store before record, checked, record renamed into place', 'src/store/file_store.cc: save')])
p('C12', 'New result files never overwrite existing ones and pair up by name',
  'A saved record and the results that belong to it get names that differ only in their extension, the extensions by which records and results are found when a directory is read again or merged. Both are placed in the configured result directory under a name that none of the existing files of these two kinds has.',
  ['histories', 'inputs'], 'every content of the result directory',
  TESTS + 'a collision is improbable in any test.',
  ['src/store/file_store.cc', 'src/executables/merger.cc'],
  [('new_filenames', 'src/store/file_store.cc')])
p('C13', 'The merger combines each record with its results exactly once, or fails',
  'The merger reads every record of the directory together with the results of the same name, each exactly once, and writes the union of the blocks and the sum of the results. If a record has no results, or one of the files can not be opened or read, or an output can not be written, it reports an error through a nonzero exit status.',
  ['inputs', 'fault_sequences'], 'every content of the directory, every failing read or write',
  TESTS + 'the merger is not tested.',
  ['src/executables/merger.cc', 'src/store/store_factory.hh'],
  [('main of the merger', 'src/executables/merger.cc')])
p('C14', 'Results of equal curve data are added up',
  'Wherever results are combined (registering a curve, publishing a block, merging files) the count for a given curve data is the sum of all contributions to it: nothing already accumulated is lost or overwritten, no contribution is counted twice, and other curve data are not affected.',
  ['histories', 'inputs'], 'every sequence of contributions in every order',
  TESTS + 'stores are not tested.',
  ['src/store/store.cc', 'src/store/store_data.hh', 'src/executables/merger.cc'],
  [('ValueType of the store data, register_curve, flush_to_static_store, extract', 'src/store')])
p('C15', 'Registering a curve counts the curve and its quadratic twist',
  'Registering a curve adds its weight (the number of isomorphic forms that the enumeration lets it stand for) once to the count for the data of the curve and once to the count for the data of its quadratic twist, and to nothing else; if both data agree they get the weight twice. The data of the twist has the ramification type of the curve and at each extension degree the Hasse-Weil offset of the curve, with the sign changed for the odd degrees (the first, third, ...) and unchanged for the even ones.',
  ['inputs'], 'every curve', TESTS + 'registration and twists are not tested.',
  ['src/store/store.cc', 'src/store/curve_data.cc', 'src/store/curve_data.hh', 'src/store/store_data.hh'],
  [('register_curve and twist', 'src/store/store.cc, src/store/curve_data.cc')])
p('C16', 'What is written to result and record files reads back unchanged',
  'Whatever set of blocks and whatever results of curves (they have at least one offset and a ramification type) are written as text, reading the text back yields the same blocks and the same results: each field is written with separators that the reader expects, in the order in which the reader takes them, and the reader stops exactly at the end.',
  ['inputs'], 'every block list and every set of results',
  TESTS + 'file formats are not tested.',
  ['src/store/file_store.cc', 'src/store/store.cc', 'src/store/curve_data.cc', 'src/store/store_data.cc'],
  [('insert and extract, operator<< and operator>> of the value types', 'src/store')])
p('C17', 'Curve data used as keys are strictly ordered, consistently with equality',
  'The order by which curve data are kept in stores is a strict weak order which distinguishes any two curve data that differ in a Hasse-Weil offset or in the ramification type, and identifies equal ones. The same holds for the comparison of twists with the curve itself.',
  ['inputs'], 'all pairs and triples of curve data',
  TESTS + 'the order is not tested, and a flaw needs particular pairs.',
  ['src/store/curve_data.hh', 'src/store/curve_data.cc'],
  [('less and equality of the value type', 'src/store/curve_data.hh')])
p('C18', 'Copies of results own their numbers',
  'Copying, assigning or destroying a result never affects the value or the storage of another result: every result owns an arbitrary precision number of its own, which is set up before it is used and released exactly once.',
  ['histories', 'inputs'], 'every sequence of copies, assignments and destructions, numbers beyond one machine word included',
  TESTS + 'results are not tested, and shared storage shows only for numbers beyond 62 bits.',
  ['src/store/store_data.hh', 'src/store/store_data.cc'],
  [('special member functions of the value type', 'src/store/store_data.hh')])
p('C19', 'Every number-theoretic object is initialised before use and released once',
  'Each object of the number theory library and each heap object that the program creates by hand is initialised before it is used, released at most once and on no path used after that, and released on every path on which its owner ends, objects kept in containers included.',
  ['inputs', 'histories'], 'every path through every function',
  TESTS + 'leaks and uses after release do not fail a test.',
  ['src/curve.cc', 'src/fq_element_table.cc', 'src/reduction_table.cc', 'src/single_curve_fp.cc'],
  [('pairs of init and clear, new and delete', 'src/curve.cc, src/fq_element_table.cc, src/reduction_table.cc')])
p('C20', 'A configuration is decoded completely, with documented defaults',
  'Reading a configuration takes each setting from the entry of that name and from no other; an entry without which nothing can be computed is required, and an optional entry that is missing yields its documented default. Encoding a configuration and decoding it again gives the same configuration.',
  ['inputs', 'configurations'], 'every configuration file',
  TESTS + 'configurations are not tested.',
  ['src/config/config_node.hh', 'src/config/config_node.cc'],
  [('YAML conversion of configurations', 'src/config')])
p('C21', 'A configuration or block sent to another process arrives unchanged',
  'When a configuration is sent between processes every setting that influences what is computed or where it is saved is transferred, and it is written and read in the same order and with the same types. The receiver uses the configuration it received.',
  ['configurations', 'inputs'], 'every configuration',
  TESTS + 'no test communicates between processes.',
  ['src/config/config_node.hh', 'src/worker_pool/mpi.cc', 'src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc'],
  [('serialize of the configuration', 'src/config/config_node.hh')])
p('C22', 'Processes agree on every message',
  'For every message that one process sends, the process that it is sent to waits for a message with the same tag and the same sequence of types, in the same order; for every answer that a process waits for the other one sends it, on every path. No process sends or awaits a message, or takes part in a collective step, that its counterpart does not.',
  ['schedules', 'histories'], 'every sequence of requests and every number of processes',
  TESTS + 'no test communicates between processes.',
  ['src/worker_pool/mpi.cc', 'src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/worker_pool/mpi.hh'],
  [('tags and order of send and recv in the pool and in the worker loop', 'src/worker_pool/mpi.cc')])
p('C23', 'Only the main thread of a process communicates',
  'Message passing calls are made by the main thread of a process only, never by a worker thread, since the message passing library is not initialised for use by several threads.',
  ['schedules'], 'every function that a worker thread can reach',
  TESTS + 'a call from another thread fails only under particular schedules.',
  ['src/threaded/thread.cc', 'src/threaded/thread_pool.cc', 'src/worker_pool/mpi.cc', 'src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc'],
  [('separation of threads and worker pools', 'src/threaded, src/worker_pool')])
p('C24', 'The controlling process always releases the other processes',
  'In the distributed program, whatever input the controlling process gets and however it ends, all other processes end as well: either it tells each of them to shut down, and they leave their loop, or it aborts all processes.',
  ['inputs', 'fault_sequences'], 'every input and every way out of the program',
  TESTS + 'no test starts the distributed program.',
  ['src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/worker_pool/mpi.cc'],
  [('destructor of the pool, abort on error', 'src/worker_pool/mpi.cc, src/executables/mpi.cc')])
p('C25', 'Rejected input gives a nonzero exit status and no computation',
  'If a command line or a configuration file is invalid, the programs end with a nonzero exit status before any block is computed. Each configuration is verified before any of its blocks is computed, and if the verification fails none of them is and the exit status is nonzero; blocks of configurations that precede it may have been computed.',
  ['inputs'], 'every command line and every configuration file',
  TESTS + 'the programs themselves are not run by the tests.',
  ['src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/executables/threaded.cc', 'src/executables/single.cc', 'src/executables/merger.cc', 'src/config/config_node.cc'],
  [('checks at the beginning of the main functions', 'src/executables')])
p('C26', 'All ways to count points classify a point alike',
  'For every curve and extension the table based count and the two direct counts classify each value of the polynomial in the same way: a zero value gives one ramified point, a square gives two unramified points, a nonsquare none. The leading coefficient is classified likewise at infinity if the degree is even; if it is odd there is one ramified point. Each element of the field is considered exactly once, and every count forms the value there as the sum of coefficients times powers, with coefficients taken to the extension field.',
  ['inputs'], 'every curve over every field and extension',
  TESTS + 'agreement of the counts is only sampled for a few curves.',
  ['src/curve.cc'],
  [('count_cpu, count_naive_nmod, count_naive_zech', 'src/curve.cc')])
p('C27', 'Counting is idempotent and keeps each extension apart',
  'Counting the points of a curve over an extension determines the numbers of that extension, whatever has been counted before: counting again gives the same numbers and counting over one extension never changes the numbers of another.',
  ['histories'], 'every sequence of counts',
  TESTS + 'the tests count once per curve and extension.',
  ['src/curve.cc', 'src/curve.hh'],
  [('maps from exponents to numbers of points', 'src/curve.cc')])
p('C28', 'Incompatible arguments are refused',
  'Counting a curve with the tables of another characteristic, over an extension that does not contain its field, or over a smaller field, is refused instead of giving a number; so is asking for a list of numbers of points of extensions some of which have not been counted, enumerating curves in characteristic two or of genus zero, and a block with an empty range.',
  ['inputs'], 'every combination of curve and tables',
  TESTS + 'no test passes incompatible arguments.',
  ['src/curve.cc', 'src/block_iterator.cc', 'src/fq_element_table.cc', 'src/single_curve_fp.cc'],
  [('guards at the beginning of the functions', 'src/curve.cc')])
p('C29', 'Table lookups stay inside the tables',
  'Every index into the tables of a field and its extensions that counting uses lies within the table: exponents are reduced modulo the order of the multiplicative group before they are looked up, and the value zero, which has no logarithm, is never looked up as one. Coefficients from which a single curve is made are reduced modulo the prime before their codes are looked up, with arithmetic that does not overflow, and the codes are those of the elements.',
  ['inputs'], 'every polynomial and field',
  TESTS + 'an index out of range need not fail a test.',
  ['src/curve.cc', 'src/reduction_table.cc', 'src/fq_element_table.cc', 'src/single_curve_fp.cc'],
  [('reductions modulo prime power minus one', 'src/curve.cc: count_cpu')])
p('C30', 'Every enumerated family fixes a range for each coefficient exactly once',
  'Each family of polynomials that the enumeration produces specifies exactly one range for every coefficient from the constant to the leading one, and the range of the leading coefficient does not contain zero. Ranges are nonempty and lie within the field.',
  ['inputs', 'configurations'], 'every field, genus and package size',
  TESTS + 'the tests sample a few genera and fields.',
  ['src/curve_iterator.cc', 'src/curve_iterator.hh'],
  [('enumeration of coefficient support', 'src/curve_iterator.cc')])
p('C31', 'Hasse-Weil offsets follow from the numbers of points',
  'The Hasse-Weil offset of a curve at an extension is the number of elements of that extension plus one minus the total number of points over it, ramified and unramified ones and those at infinity included; the list of offsets up to a given extension holds one offset for every extension of the field of the curve up to that one, in order. The largest extension for which a curve says it has been counted is the last one before the first that has not been.',
  ['inputs'], 'every curve and extension',
  TESTS + 'the offsets themselves are not tested.',
  ['src/curve.cc'], [('hasse_weil_offsets, number_of_points', 'src/curve.cc')])
p('C32', 'Polynomials are evaluated correctly in logarithmic representation',
  'The table based count evaluates the polynomial by the scheme of Horner: a vanishing partial result is replaced by the next coefficient, a vanishing coefficient leaves the product as it is, and otherwise sum and product are formed by the rules for logarithms, at each nonzero point in turn, with the value at zero taken from the constant coefficient.',
  ['inputs'], 'every polynomial, every point',
  TESTS + 'only a few polynomials are evaluated.',
  ['src/curve.cc', 'src/reduction_table.cc'], [('count_cpu', 'src/curve.cc')])
p('C33', 'Every configuration and every block is processed exactly once, in order',
  'The programs process every configuration that the input contains, in order; for each one they set up the workers for exactly this configuration and offer each block of its enumeration exactly once, until the enumeration has reached its end.',
  ['inputs', 'configurations'], 'every list of configurations',
  TESTS + 'the programs themselves are not run by the tests.',
  ['src/executables/mpi.cc', 'src/worker_pool/mpi_worker.cc', 'src/executables/threaded.cc', 'src/worker_pool/standalone.cc', 'src/worker_pool/mpi.cc'],
  [('main loops', 'src/executables')])

p('C34', 'The table of a field lists every element once',
  'The table of a field holds at entry i, for i below the order of the multiplicative group, the i-th power of one element that generates the multiplicative group, and zero at the last entry, so that every element of the field has exactly one code. The codes of zero and of one, the ranges of all and of the nonzero elements, the powers of the generator, and the representatives of the multiplicative group modulo powers that the table hands out are what their names say.',
  ['inputs', 'configurations'], 'every prime and degree',
  TESTS + 'the tests use a few small fields, where the default generators happen to be right.',
  ['src/fq_element_table.cc', 'src/fq_element_table.hh'],
  [('filling of the table', 'src/fq_element_table.cc: FqElementTable::FqElementTable'), ('ranges and representatives', 'src/fq_element_table.hh, src/fq_element_table.cc')])
p('C35', 'The weights of the enumerated curves add up to all curves',
  'Each polynomial of the enumeration stands for several curves, as many as its weight, which is what registering the curve adds to the counts. For each degree that is asked for (2g+1, and 2g+2 unless a marked point is required) the weights of all polynomials of that degree in the enumerated families are whole numbers and add up to half of the number q^d (q-1) of all polynomials of that degree over the field with q elements (the other half are the quadratic twists); no polynomial of another degree is enumerated. The support that determines the weight lists the places of the coefficients other than zero in ascending order.',
  ['inputs', 'configurations'], 'every odd characteristic, field and genus',
  TESTS + 'no test looks at the enumeration as a whole or at weights, and summing over all curves is out of reach for all but the smallest fields.',
  ['src/curve_iterator.cc', 'src/curve_iterator.hh', 'src/curve.cc'],
  [('families', 'src/curve_iterator.cc: CurveIterator::CurveIterator'), ('weights', 'src/curve_iterator.cc: CurveIterator::multiplicity'), ('support', 'src/curve.cc: Curve::rhs_support')])
p('C36', 'A family of polynomials is gone through completely and without repetition',
  'Going through a family (entries that run over a range in steps, over a set, or over a set that depends on another entry) visits every combination of the values of the entries exactly once, and the end is reached exactly after the last one. The steps of the ranges are positive and together comprise at most as many polynomials as the package size allows; the block that is handed out for a position is, for each entry, the part of its range that belongs to the step (cut off at the end of the range), or its single value. A block that is handed out is in turn gone through one by one, completely. The families of a field and genus follow each other, each from its first to its last position.',
  ['inputs', 'configurations'], 'every family, block, and positive package size',
  TESTS + 'the tests of block iteration look at a few tiny families, and never at packages together with dependent sets, or at the end of ranges that steps do not divide.',
  ['src/block_iterator.cc', 'src/block_iterator.hh', 'src/curve_iterator.cc', 'src/curve_iterator.hh'],
  [('stepping', 'src/block_iterator.cc: BlockIterator::step_'), ('packages', 'src/block_iterator.cc: BlockIterator::initialize_blocks, BlockIterator::as_block'), ('families', 'src/curve_iterator.cc: CurveIterator::step')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
