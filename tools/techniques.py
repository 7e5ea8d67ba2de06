AI = 'path-sensitive abstract interpretation of the Clang syntax tree: '
SND = 'Decides the rule for every path through the analysed functions (loops are summarised, not unrolled); it trusts the modelled contracts of the standard library, Boost and FLINT. '
TECH = {
 'C01': (AI + 'lockset and happens-before (thread creation/join) analysis of every access to shared members', SND),
 'C02': (AI + 'typestate of mutex, condition variable and predicate', SND),
 'C03': (AI + 'lock-order graph, lock balance on all paths, blocking calls under locks', SND),
 'C05': (AI + 'ordering automaton over take/publish/report events', SND),
 'C06': (AI + 'loop summaries of the worker: complete sweep of the block, guarded registration', SND),
 'C07': (AI + 'linear-token analysis of worker states', SND),
}
TECH.update({
 'C04': (AI + 'atomic-section analysis of publication and export (one uninterrupted lock region, complete effect on results and block list)', SND),
 'C14': (AI + 'effect analysis of every operation that combines results: value of each key before and after, as terms', SND),
 'C15': (AI + 'effect analysis of registration and case analysis of the twist, degree by degree', SND),
 'C17': (AI + 'lexicographic normal form of the comparison operators and the order axioms on it', SND),
 'C18': (AI + 'ownership typestate of the numbers of results, value equality of copies, audit of special member functions', SND),
 'C19': (AI + 'initialise/use/release typestate of FLINT objects, heap objects and containers of them', SND),
})
TECH.update({
 'C16': (AI + 'grammar of the written text (from output events) and transducer of the reader (from input events), explored as a product; field routing, types, order and completeness', SND),
})
TECH.update({
 'C11': (AI + 'typestate of the files that are written (opened, written, flushed, success verified, renamed) along every path, partner file first', SND),
 'C12': (AI + 'symbolic file names: stems and extensions of written files against those that the readers accept, and the facts known about existing files when the name is chosen', SND),
 'C13': (AI + 'effect analysis of the merger with readers and writers (C16) opaque: loop over the directory covers it, one read of each pair per iteration, exit values', SND),
})
TECH.update({
 'C08': (AI + 'linear-token analysis of free slots, block effects of the operation that offers a block, reports consumed per process', SND),
 'C09': (AI + 'typestate (outstanding, awaited, exported, reconfigured) over every operation of the pools; loops over ranks are summarised', SND),
 'C10': (AI + 'value-flow of every exported value to the file store under which it was computed', SND),
 'C22': (AI + 'protocol automaton: the waiting loop is tabulated per tag, every trace of the controlling pool is run through it', SND),
 'C23': ('call graph reachability (virtual and stored calls included) from thread entry points to communication', 'Decides the rule for every function that a started thread can reach; it trusts the resolution of calls by the compiler. '),
})
TECH.update({
 'C24': (AI + 'classification of every path of the controlling process (pool destroyed once, abort, or contradiction with every path into the waiting loop in a common fact)', SND),
 'C25': (AI + 'facts that must be known when the workers are configured or a curve is built, exit status of every path', SND),
 'C33': (AI + 'loop summaries of the main programs: list of configurations, enumeration set up from the same configuration, one offer and one step per iteration, exit condition', SND),
})
TECH.update({
 'C20': (AI + 'provenance of every setting (entry name and type read) on every path, defaults, and agreement with what is written', SND),
 'C21': (AI + 'comparison of the saving and the loading instantiation of every serialisation, value by value; value flow from the pool to the threads of other processes', SND),
})
TECH.update({
 'C26': (AI + 'value of the polynomial recognised from the loop that accumulates it, by polynomial arithmetic over the terms of the abstract interpretation; points and classes tied to guards of every path', SND),
 'C27': (AI + 'keys of every number read or written by a count, their first value, and what happens on paths where they are present', SND),
 'C28': (AI + 'facts that must be known on every path that returns, against the preconditions', SND),
 'C31': (AI + 'terms of every offset and of the ranges of the loops that collect them', SND),
})
TECH.update({
 'C32': (AI + 'loops that evaluate are recognised as sums of coefficients times powers by arithmetic in the group ring over the generator; loops that fill the tables by the relation of index and entry', SND),
})
TECH.update({
 'C29': (AI + 'bounds a*#P+b for every number that reaches an index, found as the largest set of bounds that is inductive over the loops; the table of codes of a single curve by the terms entered', SND),
 'C34': (AI + 'terms of what is entered into the table in the general iteration, and of what the accessors return', SND),
})
TECH['C30'] = (AI + 'keys of the maps of each family as intervals with symbolic ends, tiled by elimination on the linear facts of the iteration', SND)
TECH['C35'] = (AI + 'numbers of elements of the ranges of each family and weights on the paths of the weight function as polynomials in the size of the field and greatest common divisors, summed exactly', SND + 'The size of the field is a symbol; characteristic and genus run over representatives (3, 5, 7, 11 and 1 to 3), of which 11 stands for every characteristic above the degree. ')
TECH['C36'] = (AI + 'effect summary of each stepping function per digit of a counter with mixed radix (what moves, which limit is tested, what follows), and of construction and reading of positions, against the rules of such counters', SND + 'The induction from the steps of single digits to the whole sequence is the usual one for counters and is argued in DESIGN.md, not mechanised. ')
